#pragma once
namespace takatori::relation { class graph_type {}; }
