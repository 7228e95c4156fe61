// Force-included: time() and clock() of the code under test are the harness's models.
#include <ctime>
#include <iomanip>
#include <sstream>
#include <iostream>
#include <fstream>
extern "C" time_t verif_time(time_t *);
extern "C" clock_t verif_clock(void);
#define time verif_time
#define clock verif_clock
namespace std { using ::verif_time; using ::verif_clock; }   // std::time, std::clock
