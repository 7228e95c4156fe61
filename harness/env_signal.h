// Force-included: signal() and exit() of the code under test are the harness's models.
#include <csignal>
#include <cstdlib>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
extern "C" void (*verif_signal(int, void (*)(int)))(int);
extern "C" void verif_exit(int);
extern "C" void verif__exit(int);
extern "C" int verif_sigaction(int, const struct sigaction *, struct sigaction *);
#define signal verif_signal
#define exit verif_exit
#define _exit verif__exit
#define _Exit verif__exit
#define quick_exit verif__exit
namespace std { using ::verif_signal; using ::verif_exit; using ::verif__exit; }   // std::signal, std::exit
inline int verif_sigset(sigset_t *s) { *s = sigset_t(); return 0; }
#define sigaction(...) verif_sigaction(__VA_ARGS__)   // the function; the structure keeps its name
#undef sigemptyset
#define sigemptyset(s) verif_sigset(s)
#undef sigfillset
#define sigfillset(s) verif_sigset(s)
#undef sigaddset
#define sigaddset(s, n) ((void)(n), 0)
