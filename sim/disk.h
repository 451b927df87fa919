// Simulated disk: files whose names start with /sim/ live in memory, and every operation on them can fail.
// The seam is below std::ofstream: fopen, write, writev, fclose of the C library are replaced.
#pragma once
#include <map>
#include <string>
#include <vector>
namespace sim {
struct Disk {
    std::map<std::string, std::string> files;
    // fault plan
    long openFailAt = -1; int openErr = 13;      // number of the open to fail
    long capacity = -1;                          // bytes that fit on the disk (all files)
    long ioErrAt = -1; int ioErr = 5; bool ioErrSticky = false;   // number of the write to fail
    int shortWrites = 0, eintr = 0;              // one of so many writes is short / interrupted
    long closeFailAt = -1;                       // number of the close to fail
    // what has happened
    long opens = 0, writes = 0, closes = 0, used = 0;
    std::map<std::string, std::string> failed;   // file -> what failed
    long openNow = 0;
    unsigned rng = 1;
    void reset() { *this = Disk(); }
};
extern Disk disk;
}
