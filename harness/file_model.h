// Files of a harness: in memory for the engine (runtime/file_model.cpp), real ones in the replay's scratch directory natively.
#pragma once
#include <string>
#include <cstdio>
static std::string scratchFile(int i) { return std::string("population") + (char)('0' + i); }
#ifdef SYM_ENGINE
extern "C" void sym_file_write(const char* name, const char* p, size_t n); extern "C" const std::string* sym_file_read(const char* name);
static void writeScratch(int i, const std::string& text) { sym_file_write(scratchFile(i).c_str(), text.data(), text.size()); }
static std::string readScratch(int i) { const std::string* s = sym_file_read(scratchFile(i).c_str()); return s ? *s : std::string(); }
#else
static void writeScratch(int i, const std::string& text) { FILE* f = std::fopen(scratchFile(i).c_str(), "w"); std::fwrite(text.data(), 1, text.size(), f); std::fclose(f); }
static std::string readScratch(int i) { std::string r; FILE* f = std::fopen(scratchFile(i).c_str(), "r"); if (!f) return r; int c; while ((c = std::fgetc(f)) != EOF) r += (char)c; std::fclose(f); return r; }
#endif
