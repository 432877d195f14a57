// What the units of the program register while they are initialised; constant-initialised, so that it is ready before all of them.
#ifndef VERIF_C26_REGISTRY_HPP
#define VERIF_C26_REGISTRY_HPP
#include <string>
struct Use {
    char const* header;
    char const* unit;
    std::string (*run)(unsigned long long);
    Use* next;
    static inline Use* first = nullptr;
    Use(char const* h, char const* u, std::string (*f)(unsigned long long)) : header(h), unit(u), run(f), next(first) { first = this; }
};
#endif
