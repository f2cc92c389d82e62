// What a write site gets from the workload (C02); independent of the library's headers.
#ifndef HX_WRITEJOB_H
#define HX_WRITEJOB_H
#include <iosfwd>
#include <string>
namespace hx {
struct WriteJob {
    std::ostream *os = nullptr;
    int how = 0;                        // 0 operator<<, 1..6 write() with names of the caller's
    std::string *expected = nullptr;    // if set: receives the text according to the formatter of the harness ("" if not modelled)
    bool default_format = true;
    bool wrong_stream = false;          // the call returned another stream
};
WriteJob &job();                        // of the current task
// Faults of the coefficient inserter of the current task.
enum InserterFault { IF_NONE, IF_CUSTOM, IF_BADALLOC, IF_INT, IF_FAILBIT };
void arm_inserter(int countdown, InserterFault k, int id);
bool inserter_fired();
}
#endif
