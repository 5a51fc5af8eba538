/* bodies of libstdc++ templates that normally come from libstdc++.so */
#include <string>
#include <vector>
template class std::basic_string<char>;
