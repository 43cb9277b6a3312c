#pragma once
namespace takatori::relation { class expression {}; }
