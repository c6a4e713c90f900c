#!/usr/bin/python3
"""Regenerates the patched copies of system headers in this directory.

The distribution's Abseil and Protobuf are older than the ones Principia uses;
these copies add the few (inline, ABI-neutral) members that Principia needs."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))


def patch(path, *edits):
    s = open('/usr/include/' + path).read()
    for old, new in edits:
        assert s.count(old) == 1, (path, old, s.count(old))
        s = s.replace(old, new)
    out = os.path.join(HERE, path)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    open(out, 'w').write(s)


patch('absl/synchronization/mutex.h',
      ('  explicit MutexLock(Mutex *mu) ABSL_EXCLUSIVE',
       '  explicit MutexLock(Mutex& mu) : MutexLock(&mu) {}\n'
       '  explicit MutexLock(Mutex *mu) ABSL_EXCLUSIVE'),
      ('  explicit ReaderMutexLock(Mutex *mu) ABSL_SHARED',
       '  explicit ReaderMutexLock(Mutex& mu) : ReaderMutexLock(&mu) {}\n'
       '  explicit ReaderMutexLock(Mutex *mu) ABSL_SHARED'))
patch('absl/strings/string_view.h',
      ('  // Implicit constructor of a `string_view` from NUL-terminated `str`. When',
       '''  constexpr string_view(std::basic_string_view<char> s) noexcept
      : ptr_(s.data()), length_(s.size()) {}
  constexpr operator std::basic_string_view<char>() const noexcept {
    return std::basic_string_view<char>(ptr_, length_);
  }
  // Implicit constructor of a `string_view` from NUL-terminated `str`. When'''),
      ('#include <string>\n', '#include <string>\n#include <string_view>\n'))
patch('absl/strings/str_cat.h',
      ('  AlphaNum(absl::string_view pc) : piece_(pc) {}',
       '  AlphaNum(std::string_view pc) : piece_(pc) {}\n'
       '  AlphaNum(absl::string_view pc) : piece_(pc) {}'))
patch('absl/strings/strip.h',
      ('inline bool ConsumePrefix(absl::string_view* str, absl::string_view expected) {',
       '''inline bool ConsumePrefix(std::string_view* str, absl::string_view expected) {
  if (!absl::StartsWith(*str, expected)) return false;
  str->remove_prefix(expected.size());
  return true;
}
inline bool ConsumeSuffix(std::string_view* str, absl::string_view expected) {
  if (!absl::EndsWith(*str, expected)) return false;
  str->remove_suffix(expected.size());
  return true;
}
inline bool ConsumePrefix(absl::string_view* str, absl::string_view expected) {'''))
s = open('/usr/include/absl/container/btree_set.h').read()
old = '  // btree_set::extract()\n'
assert s.count(old) == 1
s = s.replace(old, '''  struct extract_and_get_next_return_type {
    typename Base::node_type node;
    typename Base::iterator next;
  };
  extract_and_get_next_return_type extract_and_get_next(
      typename Base::const_iterator position) {
    auto node = this->extract(position);
    auto next = this->lower_bound(node.value());
    return {std::move(node), next};
  }
''' + old)
open(os.path.join(HERE, 'absl/container/btree_set.h'), 'w').write(s)
patch('google/protobuf/arena.h',
      ('  // API to create any objects on the arena. Note that only the object will',
       '''  struct PrincipiaArenaDeleter {
    // True if the object is not on an arena.  The object is not to be asked,
    // as the arena may be gone.
    bool owned = true;
    template<typename T>
    void operator()(T* p) const {
      if (owned) { delete p; }
    }
  };
  template<typename T>
  using UniquePtr = std::unique_ptr<T, PrincipiaArenaDeleter>;
  template<typename T, typename... Args>
  static UniquePtr<T> MakeUnique(Arena* arena, Args&&... args) {
    T* const p = CreateMessage<T>(arena);
    if constexpr (sizeof...(Args) > 0) {
      *p = T(static_cast<Args&&>(args)...);
    }
    return UniquePtr<T>(p, PrincipiaArenaDeleter{arena == nullptr});
  }
  // API to create any objects on the arena. Note that only the object will'''),
      ('#include <utility>\n', '#include <memory>\n#include <utility>\n'))
