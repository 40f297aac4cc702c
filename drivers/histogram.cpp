// the histograms
#include "/repo/src/StatsHistogram.cpp"
