#include "validate.h"
template<typename B, typename T> static bool put(const B& b, bool* has, T* val) { *has = b.hasReason(); if (b.hasReason()) *val = *b.reason; return b; }
extern "C" {
bool d_isLower(char c) { return isLower(c); }
bool d_isUpper(char c) { return isUpper(c); }
bool d_isLetter(char c) { return isLetter(c); }
bool d_isDigit(char c) { return isDigit(c); }
bool d_isVowel(char c) { return isVowel(c); }
bool d_isConsonant(char c) { return isConsonant(c); }
char d_toLower(char c) { return toLower(c); }
char d_toUpper(char c) { return toUpper(c); }
char d_toDefault(char c) { return toDefaultCase(c); }
void d_toLowerS(std::string& s) { toLower(s); }
void d_toUpperS(std::string& s) { toUpper(s); }
void d_toDefaultS(std::string& s) { toDefaultCase(s); }
bool d_isLowerS(std::string_view s) { return isLower(s); }
#define D(n, f) bool n(std::string_view s, bool* has, char* val) { return put(f(s), has, val); }
D(d_isUpperS, isUpper)
D(d_isLetterS, isLetter)
D(d_isDigitS, isDigit)
D(d_isVowelS, isVowel)
D(d_isConsonantS, isConsonant)
bool d_stringEqual(std::string_view a, std::string_view b, bool cs, bool* has, std::size_t* val) { return put(details::stringEqual(a, b, cs), has, val); }
bool d_stringEqual2(std::string_view a, std::string_view b, bool cs, bool* has, std::size_t* val) { return put(ValidateBase::stringEqual(a, b, cs), has, val); }
bool d_isToken(std::string_view s) { return details::isToken(s); }
}
