unsigned long long sim_mt_threshold = 10000000ull;
