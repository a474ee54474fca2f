// File environment: the real kernel file system in a scratch directory, entered through wrapped libc calls
// that can fail (a fault is a choice of the explorer) and that account for every descriptor and FILE.
// Harness directive: @WRAP: open open64 openat creat close fdopen fopen fopen64 fclose
#ifndef VERIF_FSENV_HPP_
#define VERIF_FSENV_HPP_
#include <string>
namespace fsenv {
void begin(bool faults);            // start accounting (and injecting faults at deviation cost 1)
void end();                         // stop; everything passes through again
std::string path(const std::string& name);       // inside the scratch directory
void put(const std::string& p, const std::string& content);
void remove(const std::string& p);
bool read(const std::string& p, std::string& content);   // what the kernel has
int live_fds();                     // descriptors opened and not closed
int live_files();                   // FILEs opened and not closed
int faults();                       // injected since the last clear_faults()
const char* last_fault();
void clear_faults();
enum { Open = 1, Fdopen = 2, Write = 4, Close = 8 };
void enable(int mask);              // which calls may fail
}
#endif
#ifndef VERIF_FSENV_SESSION
#define VERIF_FSENV_SESSION
namespace fsenv { struct Session { explicit Session(bool faults) { begin(faults); } ~Session() { end(); } }; }
#endif
