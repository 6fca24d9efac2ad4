#include "validate.h"
extern "C" {
bool d_isPrime(Integer n) { return isPrime(n); }
std::vector<Integer> d_primes(Integer a, Integer b) { return primes(a, b); }
std::vector<Integer> d_primes1(Integer b) { return primes(b); }
}
