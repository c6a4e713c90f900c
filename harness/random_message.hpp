// Fills protocol buffers at random, by reflection.
#pragma once

#include <string>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "pbt.hpp"

namespace pbt {

inline void RandomMessage(Src& s, google::protobuf::Message& m, int depth,
                          int max_repeated = 4, std::size_t max_bytes = 40) {
  using google::protobuf::FieldDescriptor;
  auto const* const d = m.GetDescriptor();
  auto const* const r = m.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    FieldDescriptor const* const f = d->field(i);
    bool const message = f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE;
    int n;
    if (f->is_repeated()) {
      n = depth <= 0 && message ? 0 : s.below(max_repeated + 1);
    } else if (f->is_required()) {
      n = 1;
    } else {
      n = depth <= 0 && message ? 0 : s.below(2);
    }
    for (int k = 0; k < n; ++k) {
#define PBT_SET(TYPE, value)                \
  do {                                      \
    auto const pbt_v = (value);             \
    if (f->is_repeated()) {                 \
      r->Add##TYPE(&m, f, pbt_v);           \
    } else {                                \
      r->Set##TYPE(&m, f, pbt_v);           \
    }                                       \
  } while (false)
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_INT32:
          PBT_SET(Int32, static_cast<std::int32_t>(
                             s.coin() ? s.below(200) : s.u64()));
          break;
        case FieldDescriptor::CPPTYPE_INT64:
          PBT_SET(Int64, static_cast<std::int64_t>(
                             s.coin() ? s.below(200) : s.u64()));
          break;
        case FieldDescriptor::CPPTYPE_UINT32:
          PBT_SET(UInt32, static_cast<std::uint32_t>(
                              s.coin() ? s.below(200) : s.u64()));
          break;
        case FieldDescriptor::CPPTYPE_UINT64:
          PBT_SET(UInt64, s.coin() ? s.below(200) : s.u64());
          break;
        case FieldDescriptor::CPPTYPE_DOUBLE:
          PBT_SET(Double, s.shaped());
          break;
        case FieldDescriptor::CPPTYPE_FLOAT:
          PBT_SET(Float, static_cast<float>(s.sym(1000)));
          break;
        case FieldDescriptor::CPPTYPE_BOOL:
          PBT_SET(Bool, s.coin());
          break;
        case FieldDescriptor::CPPTYPE_ENUM: {
          auto const* const e = f->enum_type();
          PBT_SET(Enum, e->value(s.below(e->value_count())));
          break;
        }
        case FieldDescriptor::CPPTYPE_STRING: {
          std::string v;
          if (f->type() == FieldDescriptor::TYPE_BYTES) {
            auto const b = s.bytes(s.size(max_bytes));
            v.assign(b.begin(), b.end());
          } else {
            for (auto k = s.size(max_bytes); k > 0; --k) {
              v += static_cast<char>('a' + s.below(26));
            }
          }
          PBT_SET(String, v);
          break;
        }
        case FieldDescriptor::CPPTYPE_MESSAGE: {
          auto* const sub =
              f->is_repeated() ? r->AddMessage(&m, f) : r->MutableMessage(&m, f);
          RandomMessage(s, *sub, depth - 1, max_repeated, max_bytes);
          break;
        }
      }
#undef PBT_SET
    }
  }
}

}  // namespace pbt
