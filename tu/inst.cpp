// Instantiates the templates of the library so that their bodies appear in the
// AST with concrete types. Contains no logic of its own.
#ifdef VERIF_SINGLE
#include "blet/args.h"
#else
#include "blet/args.h"
#endif
#include <string>
#include <vector>

namespace blet {
namespace args {

template Vector::Vector(const char* (&)[3]);
template Vector::Vector(const char* const (&)[3]);
template Vector::Vector(const std::string (&)[3]);
template Vector::Vector(const char (&)[3]);
template Vector& Vector::operator+(const char (&)[3]);
template class ArgumentType<int>;
template class ArgumentType<bool>;
template class ArgumentType<double>;
template class ArgumentType<char>;
template class ArgumentType<unsigned char>;
template class ArgumentType<short>;
template class ArgumentType<unsigned short>;
template class ArgumentType<unsigned int>;
template class ArgumentType<long>;
template class ArgumentType<unsigned long>;
template class ArgumentType<long long>;
template class ArgumentType<unsigned long long>;
template class ArgumentType<float>;
template class ArgumentType<long double>;
template class ArgumentType<std::string>;
template class ArgumentType<const char*>;
template class ArgumentType<char[1]>;
template class ArgumentType<char[2]>;
template class ArgumentType<char[5]>;
template class ArgumentType<char[6]>;
template class ArgumentType<char[64]>;
template class ArgumentVectorType<int>;
template class ArgumentVectorType<std::string>;
template class ArgumentVectorType<double>;
template class ArgumentVectorType<bool>;
template class ArgumentVectorType<const char*>;
template class ArgumentVectorType<unsigned char>;
template class ArgumentVectorType<unsigned long>;
template class ArgumentVectorVectorType<int>;
template class ArgumentVectorVectorType<std::string>;
template class ArgumentVectorVectorType<double>;
template class ArgumentVectorVectorType<bool>;
template class ArgumentVectorVectorType<const char*>;
template class ArgumentVectorVectorType<unsigned char>;
template class ArgumentVectorVectorType<unsigned long>;

} // namespace args
} // namespace blet

namespace blet {
namespace args {

template Argument& Argument::dest<int>(int&, void (*)(int&, bool, const std::string&));
template Argument& Argument::dest<std::string>(std::string&, void (*)(std::string&, bool, const std::string&));
template Argument& Argument::dest<int>(std::vector<int>&, void (*)(std::vector<int>&, bool, const std::vector<std::string>&));
template Argument& Argument::dest<int>(std::vector<std::vector<int> >&,
                                       void (*)(std::vector<std::vector<int> >&, bool,
                                                const std::vector<std::vector<std::string> >&));

template Argument::operator int() const;
template Argument::operator double() const;
template Argument::operator unsigned long() const;

} // namespace args
} // namespace blet
