#include <Core/Config.h>
#include <iostream>
int main() { auto c = Config::Default(Environment::AUTOMATED_TESTING); std::cout << "ok\n"; }
