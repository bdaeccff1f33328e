#pragma once
// Declarations only: enough of jsoncpp for the analyser's front end to type-check the sources.
#include <cstdint>
#include <initializer_list>
#include <iosfwd>
#include <istream>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <iomanip>
#include <cstring>
#include <cmath>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <set>
#include <list>
#include <array>
namespace Json
{
    using Int = int;
    using UInt = unsigned int;
    using Int64 = int64_t;
    using UInt64 = uint64_t;
    using LargestInt = Int64;
    using LargestUInt = UInt64;
    using ArrayIndex = unsigned int;
    using String = std::string;
    using IStream = std::istream;
    using OStream = std::ostream;

    class Exception: public std::exception
    {
    public:
        Exception(String msg);
        const char* what() const noexcept override;
    };
    class RuntimeError: public Exception
    {
    public:
        RuntimeError(String const& msg);
    };
    class LogicError: public Exception
    {
    public:
        LogicError(String const& msg);
    };

    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };
    enum CommentPlacement
    {
        commentBefore = 0,
        commentAfterOnSameLine,
        commentAfter,
        numberOfCommentPlacement
    };

    class Value;
    class ValueIteratorBase
    {
    public:
        using iterator_category = std::bidirectional_iterator_tag;
        using size_t = unsigned int;
        using difference_type = int;
        bool operator==(const ValueIteratorBase& o) const;
        bool operator!=(const ValueIteratorBase& o) const;
        difference_type operator-(const ValueIteratorBase& o) const;
        Value key() const;
        UInt index() const;
        String name() const;
        char const* memberName() const;
    };
    class ValueConstIterator: public ValueIteratorBase
    {
    public:
        using value_type = const Value;
        using reference = const Value&;
        using pointer = const Value*;
        ValueConstIterator();
        ValueConstIterator operator++(int);
        ValueConstIterator& operator++();
        ValueConstIterator& operator--();
        reference operator*() const;
        pointer operator->() const;
    };
    class ValueIterator: public ValueIteratorBase
    {
    public:
        using value_type = Value;
        using reference = Value&;
        using pointer = Value*;
        ValueIterator();
        operator ValueConstIterator() const;
        ValueIterator operator++(int);
        ValueIterator& operator++();
        ValueIterator& operator--();
        reference operator*() const;
        pointer operator->() const;
    };

    class Value
    {
    public:
        using Members = std::vector<String>;
        using iterator = ValueIterator;
        using const_iterator = ValueConstIterator;
        using UInt = Json::UInt;
        using Int = Json::Int;
        using UInt64 = Json::UInt64;
        using Int64 = Json::Int64;
        using ArrayIndex = Json::ArrayIndex;
        static Value const& nullSingleton();
        Value(ValueType type = nullValue);
        Value(Int value);
        Value(UInt value);
        Value(Int64 value);
        Value(UInt64 value);
        Value(double value);
        Value(const char* value);
        Value(const char* begin, const char* end);
        Value(const String& value);
        Value(bool value);
        Value(std::nullptr_t) = delete;
        Value(const Value& other);
        Value(Value&& other) noexcept;
        ~Value();
        Value& operator=(const Value& other);
        Value& operator=(Value&& other) noexcept;
        void swap(Value& other);
        void copy(const Value& other);
        ValueType type() const;
        bool operator<(const Value& other) const;
        bool operator<=(const Value& other) const;
        bool operator>=(const Value& other) const;
        bool operator>(const Value& other) const;
        bool operator==(const Value& other) const;
        bool operator!=(const Value& other) const;
        int compare(const Value& other) const;
        const char* asCString() const;
        String asString() const;
        Int asInt() const;
        UInt asUInt() const;
        Int64 asInt64() const;
        UInt64 asUInt64() const;
        LargestInt asLargestInt() const;
        LargestUInt asLargestUInt() const;
        float asFloat() const;
        double asDouble() const;
        bool asBool() const;
        bool isNull() const;
        bool isBool() const;
        bool isInt() const;
        bool isInt64() const;
        bool isUInt() const;
        bool isUInt64() const;
        bool isIntegral() const;
        bool isDouble() const;
        bool isNumeric() const;
        bool isString() const;
        bool isArray() const;
        bool isObject() const;
        template<typename T> T as() const;
        template<typename T> bool is() const;
        bool isConvertibleTo(ValueType other) const;
        ArrayIndex size() const;
        bool empty() const;
        explicit operator bool() const;
        void clear();
        void resize(ArrayIndex newSize);
        Value& operator[](ArrayIndex index);
        Value& operator[](int index);
        const Value& operator[](ArrayIndex index) const;
        const Value& operator[](int index) const;
        Value get(ArrayIndex index, const Value& defaultValue) const;
        bool isValidIndex(ArrayIndex index) const;
        Value& append(const Value& value);
        Value& append(Value&& value);
        bool insert(ArrayIndex index, const Value& newValue);
        bool insert(ArrayIndex index, Value&& newValue);
        Value& operator[](const char* key);
        const Value& operator[](const char* key) const;
        Value& operator[](const String& key);
        const Value& operator[](const String& key) const;
        Value get(const char* key, const Value& defaultValue) const;
        Value get(const String& key, const Value& defaultValue) const;
        Value const* find(char const* begin, char const* end) const;
        void removeMember(const char* key);
        void removeMember(const String& key);
        bool removeMember(const char* key, Value* removed);
        bool removeMember(String const& key, Value* removed);
        bool removeIndex(ArrayIndex index, Value* removed);
        bool isMember(const char* key) const;
        bool isMember(const String& key) const;
        Members getMemberNames() const;
        bool hasComment(CommentPlacement placement) const;
        String getComment(CommentPlacement placement) const;
        String toStyledString() const;
        const_iterator begin() const;
        const_iterator end() const;
        iterator begin();
        iterator end();
        const Value& front() const;
        Value& front();
        const Value& back() const;
        Value& back();
    };

    class StreamWriter
    {
    public:
        virtual ~StreamWriter();
        virtual int write(Value const& root, OStream* sout) = 0;
        class Factory
        {
        public:
            virtual ~Factory();
            virtual StreamWriter* newStreamWriter() const = 0;
        };
    };
    String writeString(StreamWriter::Factory const& factory, Value const& root);
    class StreamWriterBuilder: public StreamWriter::Factory
    {
    public:
        StreamWriterBuilder();
        ~StreamWriterBuilder() override;
        Value settings_;
        StreamWriter* newStreamWriter() const override;
        Value& operator[](const String& key);
    };
    class CharReader
    {
    public:
        virtual ~CharReader();
        virtual bool parse(char const* beginDoc, char const* endDoc, Value* root, String* errs) = 0;
        class Factory
        {
        public:
            virtual ~Factory();
            virtual CharReader* newCharReader() const = 0;
        };
    };
    class CharReaderBuilder: public CharReader::Factory
    {
    public:
        CharReaderBuilder();
        ~CharReaderBuilder() override;
        Value settings_;
        CharReader* newCharReader() const override;
        Value& operator[](const String& key);
        static void strictMode(Value* settings);
    };
    bool parseFromStream(CharReader::Factory const&, IStream&, Value* root, String* errs);
    OStream& operator<<(OStream&, const Value& root);
    IStream& operator>>(IStream&, Value&);
}
