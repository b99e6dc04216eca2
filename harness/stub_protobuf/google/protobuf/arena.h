// Stand-in for protobuf's arena: blocks that live until the arena is destroyed.
#pragma once
#include <cstdlib>
#include <vector>
namespace google::protobuf {
class Arena {
 public:
  Arena() = default;
  Arena(const Arena&) = delete;
  ~Arena() { for (void* p : blocks_) free(p); }
  template <class T>
  static T* CreateArray(Arena* a, size_t n) {
    void* p = malloc(n * sizeof(T) ? n * sizeof(T) : 1);
    a->blocks_.push_back(p);
    return (T*)p;
  }
 private:
  std::vector<void*> blocks_;
};
}  // namespace google::protobuf
