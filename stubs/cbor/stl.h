// Stand-in for thirdparty/cbor (an empty git submodule in this checkout): the subset of its interface scalopus uses, with
// the RFC 8949 wire format. Decoding failures are reported as cbor::error by the outermost call.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace cbor
{
using Bytes = std::vector<std::uint8_t>;

class error : public std::runtime_error
{
public:
  explicit error(const std::string& s) : std::runtime_error(s) {}
};

struct result
{
  bool ok{ true };
  result() = default;
  result(bool b) : ok(b) {}
  explicit operator bool() const { return ok; }
  result& operator+=(const result& o)
  {
    ok = ok && o.ok;
    return *this;
  }
};

class writer
{
public:
  explicit writer(Bytes& d) : data(d) {}
  result head(std::uint8_t major, std::uint64_t v)
  {
    const std::uint8_t m = static_cast<std::uint8_t>(major << 5);
    if (v < 24)
      data.push_back(static_cast<std::uint8_t>(m | v));
    else
    {
      const int n = v <= 0xff ? 0 : v <= 0xffff ? 1 : v <= 0xffffffffULL ? 2 : 3;
      data.push_back(static_cast<std::uint8_t>(m | (24 + n)));
      for (int i = (1 << n) - 1; i >= 0; i--)
        data.push_back(static_cast<std::uint8_t>(v >> (8 * i)));
    }
    return true;
  }
  result openArray(std::size_t n) { return head(4, n); }
  result openMap(std::size_t n) { return head(5, n); }
  Bytes& data;
};

class reader
{
public:
  reader(const std::uint8_t* d, std::size_t n) : p(d), end(d + n) {}
  bool peek(std::uint8_t& b) const
  {
    if (p == end)
      return false;
    b = *p;
    return true;
  }
  result head(std::uint8_t& major, std::uint64_t& v)
  {
    if (p == end)
      return false;
    const std::uint8_t b = *p++;
    major = b >> 5;
    const std::uint8_t a = b & 31;
    if (a < 24)
    {
      v = a;
      return true;
    }
    if (a > 27)
      return false;
    const std::size_t n = std::size_t(1) << (a - 24);
    if (static_cast<std::size_t>(end - p) < n)
      return false;
    v = 0;
    for (std::size_t i = 0; i < n; i++)
      v = v << 8 | *p++;
    return true;
  }
  std::size_t left() const { return static_cast<std::size_t>(end - p); }
  result expect(std::uint8_t major) const { return p != end && *p >> 5 == major; }
  result expectArray() const { return expect(4); }
  result expectMap() const { return expect(5); }
  result readLength(std::size_t& n)
  {
    std::uint8_t m;
    std::uint64_t v;
    if (!head(m, v) || v > left())
      return false;
    n = static_cast<std::size_t>(v);
    return true;
  }
  result skip(int depth = 0)
  {
    std::uint8_t m;
    std::uint64_t v;
    if (depth > 32 || !head(m, v))
      return false;
    if (m == 2 || m == 3)
    {
      if (v > left())
        return false;
      p += v;
    }
    else if (m == 4 || m == 5)
    {
      if (v > left())
        return false;
      const std::uint64_t n = m == 5 ? 2 * v : v;
      for (std::uint64_t i = 0; i < n; i++)
        if (!skip(depth + 1))
          return false;
    }
    else if (m == 6)
      return skip(depth + 1);
    return true;
  }
  const std::uint8_t* p;
  const std::uint8_t* end;
};

// ---- integers
template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
result to_cbor(const T& v, writer& d)
{
  if (std::is_signed<T>::value && v < T(0))
    return d.head(1, static_cast<std::uint64_t>(-1 - static_cast<std::int64_t>(v)));
  return d.head(0, static_cast<std::uint64_t>(v));
}
template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
result from_cbor(T& v, reader& d)
{
  std::uint8_t m;
  std::uint64_t u;
  if (!d.head(m, u))
    return false;
  if (m == 0)
  {
    v = static_cast<T>(u);
    return v >= T(0) && static_cast<std::uint64_t>(v) == u;
  }
  if (m == 1 && std::is_signed<T>::value && u <= static_cast<std::uint64_t>(INT64_MAX))
  {
    const std::int64_t s = -1 - static_cast<std::int64_t>(u);
    v = static_cast<T>(s);
    return static_cast<std::int64_t>(v) == s;
  }
  return false;
}
// ---- strings, bytes
inline result to_cbor(const std::string& s, writer& d)
{
  d.head(3, s.size());
  d.data.insert(d.data.end(), s.begin(), s.end());
  return true;
}
inline result from_cbor(std::string& s, reader& d)
{
  std::size_t n;
  if (!d.expect(3) || !d.readLength(n))
    return false;
  s.assign(reinterpret_cast<const char*>(d.p), n);
  d.p += n;
  return true;
}
inline result to_cbor(const Bytes& s, writer& d)
{
  d.head(2, s.size());
  d.data.insert(d.data.end(), s.begin(), s.end());
  return true;
}
inline result from_cbor(Bytes& s, reader& d)
{
  std::size_t n;
  if (!d.expect(2) || !d.readLength(n))
    return false;
  s.assign(d.p, d.p + n);
  d.p += n;
  return true;
}
// ---- any value, kept serialised
class cbor_object
{
public:
  cbor_object() = default;
  template <typename T, typename std::enable_if<!std::is_same<typename std::decay<T>::type, cbor_object>::value, int>::type = 0>
  explicit cbor_object(const T& v);
  const Bytes& serialized() const { return data_; }
  Bytes& raw() { return data_; }
  template <typename T>
  T get() const;
  template <typename T>
  void get_to(T& v) const;

private:
  Bytes data_;
};
inline result to_cbor(const cbor_object& o, writer& d)
{
  d.data.insert(d.data.end(), o.serialized().begin(), o.serialized().end());
  return true;
}
inline result from_cbor(cbor_object& o, reader& d)
{
  const std::uint8_t* b = d.p;
  if (!d.skip())
    return false;
  o.raw().assign(b, d.p);
  return true;
}
// ---- containers
template <typename T>
result to_cbor(const std::unique_ptr<T>& v, writer& d);
template <typename T>
result from_cbor(std::unique_ptr<T>& v, reader& d);
template <typename T, typename std::enable_if<!std::is_same<T, std::uint8_t>::value, int>::type = 0>
result to_cbor(const std::vector<T>& v, writer& d);
template <typename T, typename std::enable_if<!std::is_same<T, std::uint8_t>::value, int>::type = 0>
result from_cbor(std::vector<T>& v, reader& d);
template <typename K, typename V>
result to_cbor(const std::map<K, V>& v, writer& d);
template <typename K, typename V>
result from_cbor(std::map<K, V>& v, reader& d);

template <typename T>
result to_cbor(const std::unique_ptr<T>& v, writer& d)
{
  if (v)
    return to_cbor(*v, d);
  d.data.push_back(0xf6);
  return true;
}
template <typename T>
result from_cbor(std::unique_ptr<T>& v, reader& d)
{
  std::uint8_t b;
  if (!d.peek(b))
    return false;
  if (b == 0xf6)
  {
    d.p++;
    v.reset();
    return true;
  }
  v.reset(new T());
  return from_cbor(*v, d);
}
template <typename T, typename std::enable_if<!std::is_same<T, std::uint8_t>::value, int>::type>
result to_cbor(const std::vector<T>& v, writer& d)
{
  result r = d.openArray(v.size());
  for (const auto& e : v)
    r += to_cbor(e, d);
  return r;
}
template <typename T, typename std::enable_if<!std::is_same<T, std::uint8_t>::value, int>::type>
result from_cbor(std::vector<T>& v, reader& d)
{
  std::size_t n;
  if (!d.expectArray() || !d.readLength(n))
    return false;
  v.clear();
  for (std::size_t i = 0; i < n; i++)
  {
    v.emplace_back();
    if (!from_cbor(v.back(), d))
      return false;
  }
  return true;
}
template <typename K, typename V>
result to_cbor(const std::map<K, V>& v, writer& d)
{
  result r = d.openMap(v.size());
  for (const auto& e : v)
  {
    r += to_cbor(e.first, d);
    r += to_cbor(e.second, d);
  }
  return r;
}
template <typename K, typename V>
result from_cbor(std::map<K, V>& v, reader& d)
{
  std::size_t n;
  if (!d.expectMap() || !d.readLength(n))
    return false;
  v.clear();
  for (std::size_t i = 0; i < n; i++)
  {
    K k;
    if (!from_cbor(k, d))
      return false;
    if (!from_cbor(v[k], d))
      return false;
  }
  return true;
}
// ---- outermost calls, on plain byte vectors
template <typename T>
result to_cbor(const T& v, Bytes& out)
{
  writer w(out);
  return to_cbor(v, w);
}
template <typename T>
result from_cbor(T& v, const Bytes& in)
{
  reader r(in.data(), in.size());
  if (!from_cbor(v, r))
    throw error("could not decode cbor data");
  return true;
}
template <typename T, typename std::enable_if<!std::is_same<typename std::decay<T>::type, cbor_object>::value, int>::type>
cbor_object::cbor_object(const T& v)
{
  writer w(data_);
  to_cbor(v, w);
}
template <typename T>
T cbor_object::get() const
{
  T v{};
  get_to(v);
  return v;
}
template <typename T>
void cbor_object::get_to(T& v) const
{
  reader r(data_.data(), data_.size());
  if (!from_cbor(v, r))
    throw error("could not decode cbor data");
}
}  // namespace cbor
