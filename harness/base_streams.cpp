// P02: pull serialization, push deserialization, and the streams, compressors
// and callbacks that support them.
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "base/array.hpp"
#include "base/not_null.hpp"
#include "base/pull_serializer.hpp"
#include "base/push_deserializer.hpp"
#include "base/push_pull_callback.hpp"
#include "base/serialization.hpp"
#include "base/sink_source.hpp"
#include "base/zfp_compressor.hpp"
#include "fatal.hpp"
#include "gipfeli/gipfeli.h"
#include "google/protobuf/util/message_differencer.h"
#include "pbt.hpp"
#include "random_message.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/ksp_plugin.pb.h"
#include "serialization/numerics.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::base::_array;
using namespace principia::base::_not_null;
using namespace principia::base::_pull_serializer;
using namespace principia::base::_push_deserializer;
using namespace principia::base::_push_pull_callback;
using namespace principia::base::_serialization;
using namespace principia::base::_sink_source;
using namespace principia::base::_zfp_compressor;
namespace serialization = principia::serialization;
using google::compression::Compressor;
using google::protobuf::Message;
using pbt::Ctx;
using pbt::Src;

namespace {

// A compressor that expands: every byte is followed by its complement.
class DoublingCompressor final : public Compressor {
 public:
  size_t MaxCompressedLength(size_t n) const override { return 2 * n; }
  bool CompressString(std::string const& in, std::string* out) const override {
    out->clear();
    for (char const ch : in) {
      out->push_back(ch);
      out->push_back(static_cast<char>(~ch));
    }
    return true;
  }
  bool UncompressString(std::string const& in,
                        std::string* out) const override {
    out->clear();
    if (in.size() % 2 != 0) return false;
    for (std::size_t i = 0; i < in.size(); i += 2) {
      if (static_cast<char>(~in[i]) != in[i + 1]) return false;
      out->push_back(in[i]);
    }
    return true;
  }
};

std::unique_ptr<Compressor> MakeCompressor(int const kind) {
  switch (kind) {
    case 0:
      return nullptr;
    case 1:
      return google::compression::NewGipfeliCompressor();
    default:
      return std::make_unique<DoublingCompressor>();
  }
}

std::unique_ptr<Message> MakeMessage(Src& s) {
  std::unique_ptr<Message> m;
  switch (s.below(5)) {
    case 0:
      m = std::make_unique<serialization::Pair>();
      break;
    case 1:
      m = std::make_unique<serialization::DiscreteTrajectory>();
      break;
    case 2:
      m = std::make_unique<serialization::Vessel>();
      break;
    case 3:
      m = std::make_unique<serialization::ContinuousTrajectory>();
      break;
    default:
      m = std::make_unique<serialization::Part>();
      break;
  }
  bool const big = s.chance(1, 8);
  pbt::RandomMessage(s, *m, big ? 3 : 2, big ? 5 : 3, big ? 3000 : 60);
  return m;
}

void Pause(std::uint64_t const n) {
  switch (n) {
    case 0:
      break;
    case 1:
      std::this_thread::yield();
      break;
    default:
      std::this_thread::sleep_for(std::chrono::microseconds(5 * n));
  }
}

struct Config {
  int compressor;
  int chunk_size;
  int number_of_chunks;
};

Config MakeConfig(Src& s) {
  Config c;
  c.compressor = s.below(3);
  c.chunk_size = s.coin() ? 1 + s.below(16) : 1 + s.below(300);
  c.number_of_chunks = (c.compressor == 0 ? 3 : 4) + s.below(5);
  return c;
}

std::vector<std::string> Serialize(Src& s, Message const& m, Config const& k,
                                   Ctx& c) {
  auto const compressor = MakeCompressor(k.compressor);
  std::size_t const max_chunk =
      compressor == nullptr ? k.chunk_size
                            : compressor->MaxCompressedLength(k.chunk_size);
  std::vector<std::string> chunks;
  int const pauses = s.below(3);
  PullSerializer serializer(k.chunk_size, k.number_of_chunks,
                            MakeCompressor(k.compressor));
  if (s.coin()) {
    std::unique_ptr<Message const> copy([&] {
      std::unique_ptr<Message> p(m.New());
      p->CopyFrom(m);
      return p.release();
    }());
    serializer.Start(not_null<std::unique_ptr<Message const>>(std::move(copy)));
  } else {
    serializer.Start(not_null<Message const*>(&m));
  }
  for (;;) {
    auto const a = serializer.Pull();
    if (a.size == 0) {
      break;
    }
    REQUIRE(a.size <= static_cast<std::int64_t>(max_chunk));
    std::string const early(reinterpret_cast<char const*>(a.data), a.size);
    Pause(pauses == 0 ? 0 : s.below(4));
    // The chunk remains valid until the next `Pull`.
    std::string const late(reinterpret_cast<char const*>(a.data), a.size);
    REQUIRE(early == late, "chunk changed before the next Pull");
    chunks.push_back(late);
    c.count();
  }
  return chunks;
}

void SerializerStream(Src& s, Ctx& c) {
  auto const m = MakeMessage(s);
  auto const k = MakeConfig(s);
  std::string const expected = m->SerializeAsString();
  c.note() << m->GetDescriptor()->name() << " of " << expected.size()
           << " bytes, compressor " << k.compressor << ", "
           << k.number_of_chunks << " chunks of " << k.chunk_size;
  auto const chunks = Serialize(s, *m, k, c);
  c.nontrivial(chunks.size() > static_cast<std::size_t>(k.number_of_chunks));
  c.label("compressor=" + std::to_string(k.compressor));
  auto const compressor = MakeCompressor(k.compressor);
  std::string actual;
  for (auto const& chunk : chunks) {
    if (compressor == nullptr) {
      actual += chunk;
    } else {
      std::string u;
      REQUIRE(compressor->UncompressString(chunk, &u),
              "a chunk is not a compressed block");
      REQUIRE(u.size() <= static_cast<std::size_t>(k.chunk_size));
      actual += u;
    }
  }
  REQUIRE(actual == expected,
          actual.size() << " bytes vs. " << expected.size());
}

void PushPullRoundTrip(Src& s, Ctx& c) {
  auto const m = MakeMessage(s);
  auto const k = MakeConfig(s);
  std::string const expected = m->SerializeAsString();
  c.note() << m->GetDescriptor()->name() << " of " << expected.size()
           << " bytes, compressor " << k.compressor << ", "
           << k.number_of_chunks << " chunks of " << k.chunk_size;
  auto chunks = Serialize(s, *m, k, c);
  int deserializer_chunk_size = k.chunk_size;
  if (k.compressor == 0) {
    // A stream: cut it elsewhere.
    std::string all;
    for (auto const& chunk : chunks) all += chunk;
    if (s.coin()) {
      chunks.clear();
      std::size_t const max = s.coin() ? 10 : 1000;
      for (std::size_t i = 0; i < all.size();) {
        std::size_t const n = 1 + s.below(max);
        chunks.push_back(all.substr(i, n));
        i += n;
      }
      deserializer_chunk_size = 1 + s.below(200);
      c.label("rechunked");
    }
  }
  int const deserializer_chunks = 1 + s.below(6);
  c.note() << "; deserializer " << deserializer_chunks << " chunks of "
           << deserializer_chunk_size << ", " << chunks.size() << " pushes";
  c.nontrivial(chunks.size() > 2);
  c.label("compressor=" + std::to_string(k.compressor));

  std::vector<std::unique_ptr<std::uint8_t[]>> buffers;
  buffers.reserve(chunks.size() + 1);
  std::vector<int> done_calls(chunks.size() + 1, 0);
  std::atomic<int> order_errors = 0;
  std::atomic<int> next_done = 0;
  std::atomic<int> final_done = 0;
  std::string at_final;
  std::unique_ptr<Message> result(m->New());
  bool const owned = s.coin();
  Message* const unowned_result = result.get();
  {
    PushDeserializer deserializer(deserializer_chunk_size, deserializer_chunks,
                                  MakeCompressor(k.compressor));
    auto const final_callback = [&](Message const& read) {
      ++final_done;
      if (next_done != static_cast<int>(chunks.size()) + 1) ++order_errors;
      at_final = read.SerializeAsString();
    };
    if (owned) {
      deserializer.Start(
          not_null<std::unique_ptr<Message>>(std::move(result)),
          std::function<void(Message const&)>(final_callback));
    } else {
      deserializer.Start(not_null<Message*>(unowned_result), final_callback);
    }
    std::vector<bool> with_callback;
    for (std::size_t i = 0; i <= chunks.size(); ++i) {
      std::string const chunk = i < chunks.size() ? chunks[i] : "";
      bool const unique = chunk.empty() ? false : s.coin();
      if (unique) {
        UniqueArray<std::uint8_t> u(chunk.size());
        std::copy(chunk.begin(), chunk.end(), u.data.get());
        deserializer.Push(std::move(u));
        // No callback to observe.
        buffers.push_back(nullptr);
        done_calls[i] = -1;
      } else {
        buffers.emplace_back(new std::uint8_t[chunk.size() + 1]);
        std::copy(chunk.begin(), chunk.end(), buffers.back().get());
        deserializer.Push(
            Array<std::uint8_t>(buffers.back().get(), chunk.size()),
            [&, i, size = chunk.size()] {
              ++done_calls[i];
              // Callbacks come in order.
              if (next_done > static_cast<int>(i)) ++order_errors;
              next_done = static_cast<int>(i) + 1;
              // The client may reclaim the memory.
              std::fill_n(buffers[i].get(), size, 0xEE);
            });
      }
      Pause(s.below(3));
    }
  }
  REQUIRE(final_done == 1, final_done);
  REQUIRE(order_errors == 0);
  for (std::size_t i = 0; i < done_calls.size(); ++i) {
    REQUIRE(done_calls[i] == 1 || done_calls[i] == -1,
            "chunk " << i << ": " << done_calls[i] << " calls to done");
  }
  REQUIRE(at_final == expected, "the message read differs");
  if (!owned) {
    REQUIRE(unowned_result->SerializeAsString() == expected);
  }
}

// The input stream against a model: a string and a position.
void InputStream(Src& s, Ctx& c) {
  using principia::base::_push_deserializer::internal::DelegatingArrayInputStream;
  std::string all;
  std::vector<std::string> chunks;
  for (int i = 0; s.more(i, 0, 12, 6); ++i) {
    auto const b = s.bytes(1 + s.below(9));
    chunks.emplace_back(b.begin(), b.end());
    all += chunks.back();
  }
  std::size_t next = 0;
  DelegatingArrayInputStream stream([&]() -> Array<std::uint8_t> {
    if (next == chunks.size()) {
      return Array<std::uint8_t>(nullptr, 0);
    }
    auto& chunk = chunks[next++];
    return Array<std::uint8_t>(reinterpret_cast<std::uint8_t*>(chunk.data()),
                               chunk.size());
  });
  std::size_t position = 0;
  std::size_t last = 0;  // What may be backed up.
  bool ended = false;
  c.note() << all.size() << " bytes in " << chunks.size() << " chunks:";
  for (int i = 0; !ended && s.more(i, 1, 40, 15); ++i) {
    switch (s.below(4)) {
      case 0: {
        if (last > 0) {
          int const n = s.below(last + 1);
          c.note() << " backup " << n;
          stream.BackUp(n);
          position -= n;
          last = 0;
          c.label("backup");
        }
        break;
      }
      case 1: {
        int const n = s.below(15);
        bool const ok = stream.Skip(n);
        c.note() << " skip " << n;
        c.label("skip");
        last = 0;
        if (position + n > all.size()) {
          REQUIRE(!ok);
          position = all.size();
          ended = true;
        } else {
          REQUIRE(ok);
          position += n;
        }
        break;
      }
      default: {
        void const* data = nullptr;
        int size = -1;
        bool const ok = stream.Next(&data, &size);
        c.note() << " next";
        if (position == all.size()) {
          REQUIRE(!ok);
          ended = true;
        } else {
          REQUIRE(ok);
          REQUIRE(size > 0);
          REQUIRE(position + size <= all.size());
          REQUIRE(all.compare(position, size,
                              std::string(static_cast<char const*>(data),
                                          size)) == 0);
          position += size;
          last = size;
        }
      }
    }
    c.count();
    REQUIRE(stream.ByteCount() == static_cast<std::int64_t>(position),
            stream.ByteCount() << " vs. " << position);
  }
  c.nontrivial(chunks.size() > 1 && position > 0);
}

// The output stream against a model: everything written and not backed up is
// delivered once, in order, in pieces that fit.
void OutputStream(Src& s, Ctx& c) {
  using principia::base::_pull_serializer::internal::DelegatingArrayOutputStream;
  int const size = 1 + s.below(12);
  std::vector<std::uint8_t> a(size), b(size);
  std::string delivered;
  int deliveries = 0;
  bool zero = false;
  DelegatingArrayOutputStream stream(
      Array<std::uint8_t>(a.data(), size), [&](Array<std::uint8_t> bytes) {
        delivered.append(reinterpret_cast<char const*>(bytes.data), bytes.size);
        zero = zero || bytes.size == 0;
        ++deliveries;
        // Alternate between the buffers.
        return Array<std::uint8_t>(
            bytes.data == a.data() ? b.data() : a.data(), size);
      });
  std::string written;
  bool can_back_up = false;
  for (int i = 0; s.more(i, 1, 30, 12); ++i) {
    void* data;
    int n;
    REQUIRE(stream.Next(&data, &n));
    REQUIRE(n > 0 && n <= size);
    can_back_up = true;
    int const used = s.coin() ? n : s.below(n + 1);
    for (int j = 0; j < n; ++j) {
      char const ch = static_cast<char>(s.below(256));
      static_cast<char*>(data)[j] = ch;
      if (j < used) {
        written += ch;
      }
    }
    if (used < n || s.chance(1, 4)) {
      stream.BackUp(n - used);
      can_back_up = false;
      c.label("backup");
      REQUIRE(delivered == written, "after BackUp");
    }
    REQUIRE(stream.ByteCount() == static_cast<std::int64_t>(written.size()),
            stream.ByteCount());
    REQUIRE(written.compare(0, delivered.size(), delivered) == 0);
    REQUIRE(written.size() - delivered.size() <=
            static_cast<std::size_t>(size));
    c.count();
  }
  REQUIRE(!zero, "delivered an empty array");
  c.note() << written.size() << " bytes through a buffer of " << size << ", "
           << deliveries << " deliveries";
  c.nontrivial(deliveries > 1);
  (void)can_back_up;
}

// The array sink and source.
void SinkSource(Src& s, Ctx& c) {
  std::string written;
  int const capacity = s.below(100);
  std::vector<std::uint8_t> buffer(capacity + 1, 0x77);
  ArraySink<std::uint8_t> sink(Array<std::uint8_t>(buffer.data(), capacity));
  while (s.more(written.size(), 0, capacity, 10) &&
         static_cast<int>(written.size()) < capacity) {
    int const room = capacity - written.size();
    auto const b = s.bytes(1 + s.below(room));
    std::string const piece(b.begin(), b.end());
    if (s.coin()) {
      std::size_t allocated = 0;
      char scratch[1];
      std::size_t const hint = piece.size() + s.below(20);
      char* const p = sink.GetAppendBuffer(1, hint, scratch, 1, &allocated);
      REQUIRE(allocated ==
              std::min<std::size_t>(hint, capacity - written.size()));
      std::size_t const n = std::min(allocated, piece.size());
      std::memcpy(p, piece.data(), n);
      sink.Append(p, n);
      written += piece.substr(0, n);
      c.label("append buffer");
    } else {
      sink.Append(piece.data(), piece.size());
      written += piece;
    }
    auto const a = sink.array();
    REQUIRE(std::string(reinterpret_cast<char const*>(a.data), a.size) ==
            written);
  }
  REQUIRE(buffer[capacity] == 0x77);
  ArraySource<std::uint8_t> source(
      Array<std::uint8_t>(buffer.data(), written.size()));
  std::size_t position = 0;
  for (int i = 0; i < 20; ++i) {
    REQUIRE(source.Available() == written.size() - position);
    std::size_t n = 999;
    char const* const p = source.Peek(&n);
    REQUIRE(n == written.size() - position);
    REQUIRE(written.compare(position, n, std::string(p, n)) == 0);
    std::size_t const skip = s.below(n + 1);
    source.Skip(skip);
    position += skip;
  }
  c.note() << written.size() << " bytes in a sink of " << capacity;
  c.nontrivial(written.size() > 1);
}

template<int D>
void Zfp(Src& s, Ctx& c) {
  double const accuracy =
      s.coin() ? 0 : std::ldexp(1.0, static_cast<int>(s.range(-20, 4)));
  ZfpCompressor const writer(accuracy);
  std::vector<std::vector<double>> all;
  std::string message;
  for (int i = 0; s.more(i, 1, 4, 2); ++i) {
    std::vector<double> v;
    for (auto n = s.below(70); n > 0; --n) {
      v.push_back(s.sym(1000));
    }
    all.push_back(v);
    writer.WriteToMessageMultidimensional<D>(
        v, not_null<std::string*>(&message));
    // Only padding with zeroes.
    REQUIRE(v.size() >= all.back().size());
    REQUIRE(v.size() - all.back().size() < (1 << (2 * (D - 1))));
    for (std::size_t k = 0; k < v.size(); ++k) {
      REQUIRE(v[k] == (k < all.back().size() ? all.back()[k] : 0));
    }
  }
  c.note() << all.size() << " vectors in dimension " << D << ", accuracy "
           << accuracy << ", sizes";
  for (auto const& v : all) c.note() << " " << v.size();
  c.nontrivial(!all[0].empty());
  c.label(accuracy == 0 ? "lossless" : "lossy");
  ZfpCompressor const reader;
  std::string_view view(message);
  for (auto const& expected : all) {
    std::vector<double> v(expected.size(), -1);
    reader.ReadFromMessageMultidimensional<D>(v, view);
    REQUIRE(v.size() >= expected.size());
    for (std::size_t k = 0; k < expected.size(); ++k) {
      if (accuracy == 0) {
        REQUIRE(v[k] == expected[k], k << ": " << v[k] << " vs. "
                                       << expected[k]);
      } else {
        REQUIRE(std::abs(v[k] - expected[k]) <= accuracy, k);
      }
    }
  }
  REQUIRE(view.empty(), view.size() << " bytes left");
}

void ZfpRoundTrip(Src& s, Ctx& c) {
  switch (s.below(4)) {
    case 0: return Zfp<1>(s, c);
    case 1: return Zfp<2>(s, c);
    case 2: return Zfp<3>(s, c);
    default: return Zfp<4>(s, c);
  }
}

// The push-pull executor computes what a direct call of the task would, the
// managed side sees the same arguments, in order, and then the end.
void PushPullExecution(Src& s, Ctx& c) {
  int const n = s.below(12);
  std::vector<int> data;
  for (int i = 0; i < n; ++i) data.push_back(s.below(1000));
  c.note() << n << " callbacks";
  c.nontrivial(n > 1);
  auto const task = [&](std::function<double(int, double)> f) {
    double r = 1;
    for (int const d : data) {
      r = r * 0.5 + f(d, r);
    }
    return r;
  };
  std::vector<std::pair<int, double>> seen, expected_seen;
  auto const callback = [](int a, double b) { return a * 3 - b * 0.25; };
  double const expected = task([&](int a, double b) {
    expected_seen.emplace_back(a, b);
    return callback(a, b);
  });
  int const pause = s.below(3);
  PushPullExecutor<double, double, int, double> executor(
      [&](std::function<double(int, double)> f) {
        Pause(pause);
        return task(f);
      });
  for (;;) {
    int a = -1;
    double b = -1;
    if (!executor.callback().Pull(a, b)) {
      break;
    }
    seen.emplace_back(a, b);
    Pause(s.below(3));
    executor.callback().Push(callback(a, b));
    REQUIRE(seen.size() <= data.size());
  }
  REQUIRE(seen == expected_seen);
  int a;
  double b;
  REQUIRE(!executor.callback().Pull(a, b), "Pull after the end");
  REQUIRE(executor.get() == expected);
}

void SerializeParse(Src& s, Ctx& c) {
  serialization::Part m;
  pbt::RandomMessage(s, m, 2);
  auto const bytes = SerializeAsBytes(m);
  c.note() << bytes.size << " bytes";
  c.nontrivial(bytes.size > 10);
  REQUIRE(std::string(reinterpret_cast<char const*>(bytes.data.get()),
                      bytes.size) == m.SerializeAsString());
  auto const read = ParseFromBytes<serialization::Part>(
      Array<std::uint8_t const>(bytes.data.get(), bytes.size));
  REQUIRE(read.SerializeAsString() == m.SerializeAsString());
  // A truncated message is an error, unless it is parseable.
  if (bytes.size > 1) {
    std::int64_t const n = s.below(bytes.size);
    serialization::Part reference;
    bool const parseable = reference.ParseFromArray(bytes.data.get(), n);
    bool const fatal = pbt::is_fatal([&] {
      ParseFromBytes<serialization::Part>(
          Array<std::uint8_t const>(bytes.data.get(), n));
    });
    REQUIRE(fatal == !parseable);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"serializer_stream",
        "random protocol buffers (5 types, 0 B to ~100 kB), 3 compressors, "
        "random chunking and consumer pauses; non-trivial if the stream is "
        "longer than the internal queue",
        4000, 80000, SerializerStream, 60},
       {"push_pull_round_trip",
        "as above, then pushed with the same or other boundaries, owned or "
        "not; non-trivial with more than 2 pushes",
        4000, 80000, PushPullRoundTrip, 60},
       {"input_stream", "random chunks and Next/BackUp/Skip sequences against "
        "a string and a position; non-trivial if something is read",
        20000, 400000, InputStream},
       {"output_stream", "random Next/BackUp sequences; non-trivial with 2 "
        "deliveries", 20000, 400000, OutputStream},
       {"sink_source", "random Append/GetAppendBuffer/Peek/Skip sequences",
        10000, 200000, SinkSource},
       {"zfp_round_trip", "1-4 vectors of 0-69 doubles in dimension 1-4 in one "
        "message, lossless or not; non-trivial if the first is not empty",
        5000, 100000, ZfpRoundTrip},
       {"push_pull_execution", "tasks with 0-11 callbacks, random pauses; "
        "non-trivial with 2 callbacks", 3000, 60000, PushPullExecution, 60},
       {"serialize_parse", "random messages; non-trivial above 10 bytes", 5000,
        100000, SerializeParse}});
}
