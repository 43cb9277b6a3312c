#pragma once
namespace takatori::plan { class step {}; class process : public step {}; class exchange : public step {}; class forward : public exchange {}; class group : public exchange {}; class aggregate : public exchange {}; }
