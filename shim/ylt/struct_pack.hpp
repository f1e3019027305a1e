// Stand-in for yalantinglibs' struct_pack (not installed here), limited to what
// the repository uses: integers, strings and byte vectors in plain structs.
// Layout follows the original's: a 4-byte type code whose lowest bit says
// whether a byte with the width of the lengths follows, then the fields packed
// little-endian, containers as length and bytes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <expected>
#include <string>
#include <string_view>
#include <algorithm>
#include <charconv>
#include <ranges>
#include <tuple>
#include <type_traits>
#include <vector>

namespace struct_pack
{
    enum class errc : int { ok = 0, no_buffer_space, invalid_buffer, hash_conflict, seek_failed, invalid_width_of_container_length };
    struct err_code
    {
        errc ec = errc::ok;
        [[nodiscard]] std::string_view message() const
        {
            switch (ec)
            {
                case errc::ok: return "ok";
                case errc::no_buffer_space: return "no buffer space";
                case errc::invalid_buffer: return "invalid argument";
                case errc::hash_conflict: return "hash conflict";
                case errc::seek_failed: return "seek failed";
                default: return "invalid width of container length";
            }
        }
        explicit operator bool() const { return ec != errc::ok; }
    };

    namespace detail
    {
        template <typename F> constexpr bool is_bytes = std::is_same_v<F, std::string> || std::is_same_v<F, std::vector<char>> || std::is_same_v<F, std::vector<uint8_t>>;

        template <typename F> constexpr uint32_t code_of()
        {
            if constexpr (std::is_same_v<F, std::string>) return 0x51;
            else if constexpr (is_bytes<F>) return 0x52;
            else if constexpr (std::is_same_v<F, bool>) return 0x11;
            else if constexpr (std::is_signed_v<F>) return 0x20 + static_cast<uint32_t>(sizeof(F));
            else return 0x30 + static_cast<uint32_t>(sizeof(F));
        }
        template <typename T> struct refl;
        template <typename T> auto fields(T& x) { return struct_pack_fields(x); }
        template <typename Tup, size_t... I> constexpr uint32_t hash_of(std::index_sequence<I...>)
        {
            uint32_t h = 2166136261u;
            ((h = (h ^ code_of<std::remove_cvref_t<std::tuple_element_t<I, Tup>>>()) * 16777619u), ...);
            return h & ~1u;
        }
        template <typename T> constexpr uint32_t type_hash()
        {
            using Tup = decltype(struct_pack_fields(std::declval<T&>()));
            return hash_of<Tup>(std::make_index_sequence<std::tuple_size_v<Tup>>{});
        }
        template <typename T> size_t longest(const T& x)
        {
            size_t m = 0;
            std::apply([&](auto&... f) {
                auto one = [&](auto& v) {
                    if constexpr (is_bytes<std::remove_cvref_t<decltype(v)>>) m = v.size() > m ? v.size() : m;
                };
                (one(f), ...);
            }, struct_pack_fields(const_cast<T&>(x)));
            return m;
        }
        inline unsigned width_log2(size_t n) { return n < 256 ? 0 : n < 65536 ? 1 : n < (size_t(1) << 32) ? 2 : 3; }

        template <typename C> void put(C& out, const void* p, size_t n)
        {
            auto* b = static_cast<const typename C::value_type*>(p);
            out.insert(out.end(), b, b + n);
        }
    }  // namespace detail

    template <typename T> size_t get_needed_size(const T& x)
    {
        unsigned w = detail::width_log2(detail::longest(x));
        size_t n = 4 + (w ? 1 : 0);
        std::apply([&](auto&... f) {
            auto one = [&](auto& v) {
                if constexpr (detail::is_bytes<std::remove_cvref_t<decltype(v)>>) n += (size_t(1) << w) + v.size();
                else n += sizeof v;
            };
            (one(f), ...);
        }, struct_pack_fields(const_cast<T&>(x)));
        return n;
    }

    template <typename C, typename T> void serialize_to(C& out, const T& x)
    {
        unsigned w = detail::width_log2(detail::longest(x));
        uint32_t h = detail::type_hash<T>() | (w ? 1u : 0u);
        detail::put(out, &h, 4);
        if (w)
        {
            uint8_t meta = static_cast<uint8_t>(w << 3);
            detail::put(out, &meta, 1);
        }
        std::apply([&](auto&... f) {
            auto one = [&](auto& v) {
                if constexpr (detail::is_bytes<std::remove_cvref_t<decltype(v)>>)
                {
                    uint64_t n = v.size();
                    detail::put(out, &n, size_t(1) << w);
                    if (n) detail::put(out, v.data(), n);
                }
                else detail::put(out, &v, sizeof v);
            };
            (one(f), ...);
        }, struct_pack_fields(const_cast<T&>(x)));
    }
    template <typename C = std::vector<char>, typename T> C serialize(const T& x)
    {
        C out;
        out.reserve(get_needed_size(x));
        serialize_to(out, x);
        return out;
    }

    // reads one object from the start of the bytes; what follows it is not looked at
    template <typename T> std::expected<T, err_code> deserialize(const char* p, size_t n, size_t& used)
    {
        size_t pos = 0;
        auto fail = [](errc e) { return std::unexpected(err_code{e}); };
        auto need = [&](size_t k) { return n - pos >= k; };
        if (!need(4)) return fail(errc::no_buffer_space);
        uint32_t h;
        std::memcpy(&h, p, 4);
        pos = 4;
        if ((h & ~1u) != detail::type_hash<T>()) return fail(errc::hash_conflict);
        unsigned w = 0;
        if (h & 1u)
        {
            if (!need(1)) return fail(errc::no_buffer_space);
            auto meta = static_cast<uint8_t>(p[pos++]);
            w = (meta >> 3) & 3;
        }
        T x{};
        errc e = errc::ok;
        std::apply([&](auto&... f) {
            auto one = [&](auto& v) {
                if (e != errc::ok) return;
                using F = std::remove_cvref_t<decltype(v)>;
                if constexpr (detail::is_bytes<F>)
                {
                    uint64_t len = 0;
                    if (!need(size_t(1) << w)) { e = errc::no_buffer_space; return; }
                    std::memcpy(&len, p + pos, size_t(1) << w);
                    pos += size_t(1) << w;
                    if (!need(len)) { e = errc::no_buffer_space; return; }
                    v.resize(len);
                    if (len) std::memcpy(v.data(), p + pos, len);
                    pos += len;
                }
                else
                {
                    if (!need(sizeof v)) { e = errc::no_buffer_space; return; }
                    std::memcpy(&v, p + pos, sizeof v);
                    pos += sizeof v;
                }
            };
            (one(f), ...);
        }, struct_pack_fields(x));
        if (e != errc::ok) return fail(e);
        used = pos;
        return x;
    }
    template <typename T> std::expected<T, err_code> deserialize(const char* p, size_t n)
    {
        size_t used;
        return deserialize<T>(p, n, used);
    }
    template <typename T, typename View> std::expected<T, err_code> deserialize(const View& v)
    {
        return deserialize<T>(reinterpret_cast<const char*>(v.data()), v.size());
    }
    template <typename T, typename View> std::expected<T, err_code> deserialize(const View& v, size_t& consume)
    {
        return deserialize<T>(reinterpret_cast<const char*>(v.data()), v.size(), consume);
    }
}  // namespace struct_pack

#define KIO_SP_1(a) x.a
#define KIO_SP_2(a, ...) x.a, KIO_SP_1(__VA_ARGS__)
#define KIO_SP_3(a, ...) x.a, KIO_SP_2(__VA_ARGS__)
#define KIO_SP_4(a, ...) x.a, KIO_SP_3(__VA_ARGS__)
#define KIO_SP_5(a, ...) x.a, KIO_SP_4(__VA_ARGS__)
#define KIO_SP_6(a, ...) x.a, KIO_SP_5(__VA_ARGS__)
#define KIO_SP_7(a, ...) x.a, KIO_SP_6(__VA_ARGS__)
#define KIO_SP_8(a, ...) x.a, KIO_SP_7(__VA_ARGS__)
#define KIO_SP_PICK(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define YLT_REFL(T, ...)                                                                                            \
    inline auto struct_pack_fields(T& x)                                                                            \
    {                                                                                                               \
        return std::tie(KIO_SP_PICK(__VA_ARGS__, KIO_SP_8, KIO_SP_7, KIO_SP_6, KIO_SP_5, KIO_SP_4, KIO_SP_3, KIO_SP_2, KIO_SP_1)(__VA_ARGS__)); \
    }
