// Offline stand-in for craftnapi: JavaScript values held in memory, with the
// conversions of Node-API (napi_get_value_int32 and so on).
#pragma once

#include <any>
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <typeindex>
#include <utility>
#include <vector>

#include <craftpp/binary/const_view.hpp>
#include <craftpp/maybe/maybe.hpp>
#include <craftpp/result/result.hpp>
#include <craftnapi/error.hpp>

namespace craftnapi {

using craftpp::maybe::Maybe;
using craftpp::maybe::None;
using craftpp::result::Result;
using ConstBinaryView = craftpp::binary::ConstView;

class Env;
class Object;
class CallbackInfo;
class Value;

using Function = std::function<Result<Value>(Env&, const CallbackInfo&)>;

struct Node;
using NodePtr = std::shared_ptr<Node>;

struct Node {
    enum Kind { undefined, null, boolean, number, string, bigint, buffer, object, array, function, klass };
    Kind kind = undefined;
    bool b = false;
    double num = 0;
    uint64_t big = 0;
    std::string str;                                    // string, or name of a class
    std::vector<uint8_t> bytes;                         // buffer
    std::vector<std::pair<std::string, NodePtr>> props; // object
    std::vector<NodePtr> items;                         // array
    std::shared_ptr<void> wrapped;
    std::type_index wrapped_type = typeid(void);
    Function call;                                      // function, constructor of a class
    std::vector<std::pair<std::string, Function>> methods;

    static NodePtr make(Kind k) { auto n = std::make_shared<Node>(); n->kind = k; return n; }
    const NodePtr* find(std::string_view name) const {
        for (const auto& p : props) {
            if (p.first == name) {
                return &p.second;
            }
        }
        return nullptr;
    }
};

class Value {
public:
    explicit Value(NodePtr n) : m_node(std::move(n)) {}

    Result<std::string> as_string() const {
        if (m_node->kind != Node::string) return make_error_code(Status::string_expected);
        return m_node->str;
    }
    Result<bool> as_boolean() const {
        if (m_node->kind != Node::boolean) return make_error_code(Status::boolean_expected);
        return bool(m_node->b);
    }
    Result<double> as_double() const {
        if (m_node->kind != Node::number) return make_error_code(Status::number_expected);
        return double(m_node->num);
    }
    // Numbers outside the range lose their upper bits, others than finite are 0.
    Result<int32_t> as_int32() const {
        if (m_node->kind != Node::number) return make_error_code(Status::number_expected);
        return int32_t(wrap(m_node->num));
    }
    Result<uint32_t> as_uint32() const {
        if (m_node->kind != Node::number) return make_error_code(Status::number_expected);
        return uint32_t(wrap(m_node->num));
    }
    // Numbers outside the range are its nearest end.
    Result<int64_t> as_int64() const {
        if (m_node->kind != Node::number) return make_error_code(Status::number_expected);
        const double d = m_node->num;
        if (!std::isfinite(d)) return int64_t(0);
        if (d >= 9223372036854775807.0) return int64_t(INT64_MAX);
        if (d <= -9223372036854775808.0) return int64_t(INT64_MIN);
        return int64_t(d);
    }
    Result<ConstBinaryView> as_buffer() const {
        if (m_node->kind != Node::buffer) return make_error_code(Status::invalid_arg);
        return ConstBinaryView(m_node->bytes.data(), m_node->bytes.size());
    }
    inline Result<Object> as_object() const;

    static Result<std::string> to_string(const Value& v) { return v.as_string(); }
    static Result<ConstBinaryView> to_buffer(const Value& v) { return v.as_buffer(); }
    static Result<int32_t> to_int32(const Value& v) { return v.as_int32(); }
    static Result<uint32_t> to_uint32(const Value& v) { return v.as_uint32(); }
    static Result<bool> to_boolean(const Value& v) { return v.as_boolean(); }
    static inline Result<Object> to_object(const Value& v);

    template<typename T>
    Result<std::reference_wrapper<T>> unwrap() const {
        if (m_node->kind != Node::object) return make_error_code(Status::object_expected);
        if (!m_node->wrapped || m_node->wrapped_type != std::type_index(typeid(T))) {
            return make_error_code(Status::invalid_arg);
        }
        return std::ref(*static_cast<T*>(m_node->wrapped.get()));
    }

    const NodePtr& node() const noexcept { return m_node; }

private:
    static uint32_t wrap(double d) {
        if (!std::isfinite(d)) return 0;
        double m = std::fmod(std::trunc(d), 4294967296.0);
        if (m < 0) m += 4294967296.0;
        return uint32_t(uint64_t(m));
    }
    NodePtr m_node;
};

class Object {
public:
    explicit Object(NodePtr n) : m_node(std::move(n)) {}

    Result<Value> named_property(std::string_view name) const {
        const NodePtr* p = m_node->find(name);
        return Value(p ? *p : Node::make(Node::undefined));
    }
    Result<Maybe<Value>> maybe_named_property(std::string_view name) const {
        const NodePtr* p = m_node->find(name);
        if (!p || (*p)->kind == Node::undefined) {
            return Maybe<Value>(None{});
        }
        return Maybe<Value>(Value(*p));
    }
    template<typename T>
    Result<Value> wrap(std::unique_ptr<T>&& v) const {
        m_node->wrapped = std::shared_ptr<void>(std::shared_ptr<T>(std::move(v)));
        m_node->wrapped_type = typeid(T);
        return Value(m_node);
    }
    template<typename T>
    Result<std::reference_wrapper<T>> unwrap() const { return Value(m_node).unwrap<T>(); }
    Value to_value() const { return Value(m_node); }
    static Value fmap_to_value(const Object& o) { return o.to_value(); }
    operator Value() const { return to_value(); }

    const NodePtr& node() const noexcept { return m_node; }

private:
    NodePtr m_node;
};

inline Result<Object> Value::as_object() const {
    if (m_node->kind != Node::object && m_node->kind != Node::array && m_node->kind != Node::buffer) {
        return make_error_code(Status::object_expected);
    }
    return Object(m_node);
}
inline Result<Object> Value::to_object(const Value& v) { return v.as_object(); }

// Name and value of a property under construction; properties without a value
// are left out.
struct Property {
    using V = Maybe<Result<Value>>;
    Property(std::string_view n, const Result<Value>& v) : name(n), value(v) {}
    Property(std::string_view n, const Result<Object>& v) : name(n), value(Result<Value>(v)) {}
    Property(std::string_view n, const Value& v) : name(n), value(Result<Value>(v)) {}
    Property(std::string_view n, const Object& v) : name(n), value(Result<Value>(v.to_value())) {}
    Property(std::string_view n, const Maybe<Result<Value>>& v) : name(n), value(v) {}
    Property(std::string_view n, const Maybe<Result<Object>>& v) : name(n) {
        if (v.is_some()) {
            value = V(Result<Value>(v.unwrap()));
        }
    }
    Property(std::string_view n, None) : name(n) {}
    std::string name;
    V value;
};

struct Method {
    Method(std::string_view n, Function f) : name(n), call(std::move(f)) {}
    std::string name;
    Function call;
};

class CallbackInfo {
public:
    CallbackInfo(Value self, std::vector<Value> args)
        : this_arg(std::move(self)), m_args(std::move(args))
    {}
    // Arguments not given are undefined.
    Result<Value> operator[](size_t i) const {
        return i < m_args.size() ? m_args[i] : Value(Node::make(Node::undefined));
    }
    size_t size() const noexcept { return m_args.size(); }
    Value this_arg;
private:
    std::vector<Value> m_args;
};

class Env {
public:
    Result<Value> create_string(std::string_view s) const {
        auto n = Node::make(Node::string);
        n->str = std::string(s);
        return Value(n);
    }
    Result<Value> create_int32(int32_t v) const { return number(v); }
    Result<Value> create_uint32(uint32_t v) const { return number(v); }
    Result<Value> create_int64(int64_t v) const { return number(double(v)); }
    Result<Value> create_double(double v) const { return number(v); }
    Result<Value> create_bigint_uint64(uint64_t v) const {
        auto n = Node::make(Node::bigint);
        n->big = v;
        return Value(n);
    }
    Result<Value> create_boolean(bool v) const {
        auto n = Node::make(Node::boolean);
        n->b = v;
        return Value(n);
    }
    Result<Value> create_null() const { return Value(Node::make(Node::null)); }
    Result<Value> create_undefined() const { return Value(Node::make(Node::undefined)); }
    Result<Value> create_buffer(const ConstBinaryView& v) const {
        auto n = Node::make(Node::buffer);
        n->bytes.assign(v.begin(), v.end());
        return Value(n);
    }
    Result<Object> create_object(std::initializer_list<Property> ps) const {
        auto n = Node::make(Node::object);
        for (const auto& p : ps) {
            if (p.value.is_none()) {
                continue;
            }
            if (p.value.unwrap().is_err()) {
                auto e = p.value.unwrap().unwrap_err();
                return e.add_context(p.name);
            }
            n->props.emplace_back(p.name, p.value.unwrap().unwrap().node());
        }
        return Object(n);
    }
    template<typename C, typename F>
    Result<Value> create_array(const C& items, F&& f) const {
        auto n = Node::make(Node::array);
        for (const auto& x : items) {
            auto v = f(x);
            if (v.is_err()) {
                return v.unwrap_err();
            }
            n->items.push_back(v.unwrap().node());
        }
        return Value(n);
    }
    Result<Value> create_function(Function f) const {
        auto n = Node::make(Node::function);
        n->call = std::move(f);
        return Value(n);
    }
    Result<Value> create_class(std::string_view name, Function ctor, std::initializer_list<Method> ms) const {
        auto n = Node::make(Node::klass);
        n->str = std::string(name);
        n->call = std::move(ctor);
        for (const auto& m : ms) {
            n->methods.emplace_back(m.name, m.call);
        }
        return Value(n);
    }

private:
    static Result<Value> number(double v) {
        auto n = Node::make(Node::number);
        n->num = v;
        return Value(n);
    }
};

// What the engine does: `new klass(args)`, `self.name(args)`.
inline Result<Value> js_new(Env& env, const Value& klass, std::vector<Value> args) {
    auto self = Value(Node::make(Node::object));
    auto r = klass.node()->call(env, CallbackInfo(self, std::move(args)));
    if (r.is_err()) {
        return r.unwrap_err();
    }
    return self;
}

inline Result<Value> js_call(Env& env, const Value& klass, const Value& self, std::string_view name, std::vector<Value> args) {
    for (const auto& m : klass.node()->methods) {
        if (m.first == name) {
            return m.second(env, CallbackInfo(self, std::move(args)));
        }
    }
    return make_error_code(Status::function_expected);
}

}
