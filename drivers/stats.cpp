// Driver: the real statistics accumulators.
#include "Double.cpp"
#include "Stats.cpp"
#include "StatsSequence.cpp"
#include "StatsSeries.cpp"
#include "StatsEMA.cpp"
