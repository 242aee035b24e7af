// Bodies for the standard-library templates that libstdc++ only ships compiled.
#include <string>
template class std::basic_string<char>;
