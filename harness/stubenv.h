// A base environment that must not be asked for file storage; other calls are recorded.
#pragma once
#include "lsmdb/env.h"
struct StubEnv : lsmdb::Env {
  int calls = 0;
  lsmdb::Status bad() { REQUIRE(0, "file storage is not delegated to the base environment"); return lsmdb::Status::OK(); }
  lsmdb::Status NewSequentialFile(const std::string&, lsmdb::SequentialFile** r) override { *r = nullptr; return bad(); }
  lsmdb::Status NewRandomAccessFile(const std::string&, lsmdb::RandomAccessFile** r) override { *r = nullptr; return bad(); }
  lsmdb::Status NewWritableFile(const std::string&, lsmdb::WritableFile** r) override { *r = nullptr; return bad(); }
  lsmdb::Status NewAppendableFile(const std::string&, lsmdb::WritableFile** r) override { *r = nullptr; return bad(); }
  bool FileExists(const std::string&) override { bad(); return false; }
  lsmdb::Status GetChildren(const std::string&, std::vector<std::string>*) override { return bad(); }
  lsmdb::Status RemoveFile(const std::string&) override { return bad(); }
  lsmdb::Status CreateDir(const std::string&) override { return bad(); }
  lsmdb::Status RemoveDir(const std::string&) override { return bad(); }
  lsmdb::Status GetFileSize(const std::string&, uint64_t*) override { return bad(); }
  lsmdb::Status RenameFile(const std::string&, const std::string&) override { return bad(); }
  lsmdb::Status LockFile(const std::string&, lsmdb::FileLock**) override { return bad(); }
  lsmdb::Status UnlockFile(lsmdb::FileLock*) override { return bad(); }
  void Schedule(std::function<void(void*)>, void*) override { calls++; }
  void StartThread(std::function<void(void*)>, void*) override { calls++; }
  lsmdb::Status GetTestDirectory(std::string*) override { return bad(); }
  lsmdb::Status NewLogger(const std::string&, lsmdb::Logger** r) override { *r = nullptr; return bad(); }
  uint64_t NowMicros() override { calls++; return 7; }
  void SleepForMicroseconds(int) override { calls++; }
};
