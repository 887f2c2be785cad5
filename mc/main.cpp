extern "C" int mc_main(int, char**);
int main(int c, char** v) { return mc_main(c, v); }
