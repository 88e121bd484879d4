#pragma once
#include <map>
#include <string>
std::map<std::string, int> &pq_faults();     // "enc" / "dec": how many of the next calls fail
