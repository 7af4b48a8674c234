#pragma once
#include "exec.hpp"
int minimise(Episode e, const std::string &cls, const std::string &prop, double secs, const std::string &outfile);
