#pragma once
#include <any>
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
namespace dingodb { namespace serialV2 { class BaseSchema { public: virtual ~BaseSchema() {} enum Type { kBool, kInteger, kFloat, kLong, kDouble, kString, kBoolList, kIntegerList, kFloatList, kLongList, kDoubleList, kStringList, kDecimal, kDecimalList }; virtual Type GetType() { return kBool; } virtual bool AllowNull() { return false; } virtual bool IsKey() { return false; } virtual int GetIndex() { return 0; } virtual std::string& GetName() { static std::string s; return s; } virtual void SetIndex(int) {} virtual void SetIsKey(bool) {} virtual void SetAllowNull(bool) {} virtual void SetName(const std::string&) {} }; template <class T> class DingoSchema : public BaseSchema { public: void SetIsLe(bool) {} }; typedef std::shared_ptr<BaseSchema> BaseSchemaPtr; class RecordEncoder { public: template <class... A> RecordEncoder(A&&...) {} template <class... A> int Encode(A&&...) { return 0; } template <class... A> int EncodeKey(A&&...) { return 0; } template <class... A> int EncodeValue(A&&...) { return 0; } template <class... A> int EncodeMaxKeyPrefix(A&&...) { return 0; } template <class... A> int EncodeMinKeyPrefix(A&&...) { return 0; } template <class... A> int EncodeKeyPrefix(A&&...) { return 0; } }; class RecordDecoder { public: template <class... A> RecordDecoder(A&&...) {} template <class... A> int Decode(A&&...) { return 0; } template <class... A> int DecodeKey(A&&...) { return 0; } }; class Buf { std::string b_; size_t pos_ = 0; bool fixed_ = false; public:
  explicit Buf(int n, bool = true) { b_.reserve(n); } explicit Buf(size_t n, bool = true) { b_.reserve(n); } explicit Buf(const std::string& s, bool = true) : b_(s) {} explicit Buf(std::string&& s, bool = true) : b_(std::move(s)) {} 
  void Write(uint8_t c) { b_.push_back((char)c); } void Write(const std::string& s) { b_ += s; }
  void WriteLong(int64_t v) { for (int i = 7; i >= 0; --i) b_.push_back((char)((uint64_t)v >> (8 * i))); }
  void WriteInt(int32_t v) { for (int i = 3; i >= 0; --i) b_.push_back((char)((uint32_t)v >> (8 * i))); }
  uint8_t Read() { return (uint8_t)b_.at(pos_++); } uint8_t Peek() { return (uint8_t)b_.at(pos_); }
  int64_t ReadLong() { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | (uint8_t)b_.at(pos_++); return (int64_t)v; }
  int32_t ReadInt() { uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | (uint8_t)b_.at(pos_++); return (int32_t)v; }
  void Skip(int n) { pos_ += n; } bool IsEnd() { return pos_ == b_.size(); } size_t Size() const { return b_.size(); }
  std::string GetString() { return b_; } int GetBytes(std::string& s) { s = b_; return (int)b_.size(); } std::string GetBytes() { return b_; } };
  template <> class DingoSchema<std::optional<int64_t>> : public BaseSchema { public: void SetIsLe(bool) {}
  static void InternalEncodeKey(Buf* b, int64_t v) { b->WriteLong((int64_t)((uint64_t)v ^ (1ull << 63))); } static int64_t InternalDecodeKey(Buf* b) { return (int64_t)((uint64_t)b->ReadLong() ^ (1ull << 63)); } };
inline bool IsLE() { return true; } }
template <class T> using DingoSchema_X = serialV2::DingoSchema<T>; using serialV2::BaseSchema; using serialV2::BaseSchemaPtr; using serialV2::DingoSchema; using serialV2::RecordEncoder; using serialV2::RecordDecoder; using serialV2::Buf; using serialV2::IsLE;
namespace serial { using namespace serialV2; } namespace rel { class RelRunner { public: template <class... A> void Decode(A&&...) {} template <class... A> const std::vector<void*>* Put(A&&...) { return nullptr; } }; } namespace expr { typedef std::any Operand; class Runner {}; } }
