// Stand-in for yalantinglibs' struct_pack, which is not installed here. It keeps the parts of the contract
// the store relies on: a type hash in front, length-prefixed containers (one byte, or wider with a
// metainfo byte when a container is long), bounds-checked decoding, trailing bytes left alone.
#pragma once
#include <concepts>
#include <cstdint>
#include <cstring>
#include <expected>
#include <span>
#include <string>
#include <string_view>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <vector>
// what the real header brings along
#include <algorithm>
#include <array>
#include <cassert>
#include <memory>
#include <optional>
#include <ranges>
#include <unordered_map>

#define YLT_RP_1(t, a) t.a
#define YLT_RP_2(t, a, ...) t.a, YLT_RP_1(t, __VA_ARGS__)
#define YLT_RP_3(t, a, ...) t.a, YLT_RP_2(t, __VA_ARGS__)
#define YLT_RP_4(t, a, ...) t.a, YLT_RP_3(t, __VA_ARGS__)
#define YLT_RP_5(t, a, ...) t.a, YLT_RP_4(t, __VA_ARGS__)
#define YLT_RP_6(t, a, ...) t.a, YLT_RP_5(t, __VA_ARGS__)
#define YLT_RP_7(t, a, ...) t.a, YLT_RP_6(t, __VA_ARGS__)
#define YLT_RP_8(t, a, ...) t.a, YLT_RP_7(t, __VA_ARGS__)
#define YLT_RP_N(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define YLT_RP(t, ...) YLT_RP_N(__VA_ARGS__, YLT_RP_8, YLT_RP_7, YLT_RP_6, YLT_RP_5, YLT_RP_4, YLT_RP_3, YLT_RP_2, YLT_RP_1)(t, __VA_ARGS__)
#define YLT_REFL(T, ...)                                                          \
    template<class V_>                                                            \
        requires std::same_as<std::remove_const_t<V_>, T>                         \
    auto ylt_refl_tie(V_& v_)                                                     \
    {                                                                             \
        return std::tie(YLT_RP(v_, __VA_ARGS__));                                 \
    }

namespace struct_pack
{
    enum class errc
    {
        ok = 0,
        no_buffer_space,
        invalid_buffer,
        hash_conflict,
        invalid_width_of_container_length,
    };
    struct err_code
    {
        errc ec = errc::ok;
        operator errc() const { return ec; }
        explicit operator bool() const { return ec != errc::ok; }
        std::string_view message() const
        {
            switch (ec)
            {
                case errc::ok: return "ok";
                case errc::no_buffer_space: return "no buffer space";
                case errc::invalid_buffer: return "invalid argument";
                case errc::hash_conflict: return "hash conflict";
                default: return "invalid width of container length";
            }
        }
    };
    struct serialize_buffer_size
    {
        size_t n = 0;
        size_t size() const { return n; }
        operator size_t() const { return n; }
    };

    namespace detail
    {
        template<class T>
        concept container = requires(const T& t) { t.data(); t.size(); typename T::value_type; };
        template<class F>
        constexpr uint32_t mix(uint32_t h)
        {
            uint32_t k = container<F> ? 0x51u + (std::is_same_v<F, std::string> ? 7 : 3) : 0x11u * (uint32_t) sizeof(F) + (std::is_signed_v<F> ? 1 : 0);
            return (h ^ k) * 16777619u;
        }
        template<class T, class... F>
        constexpr uint32_t hash_of(std::tuple<F&...>*)
        {
            uint32_t h = 2166136261u;
            ((h = mix<std::remove_const_t<F>>(h)), ...);
            return h & ~1u;  // the lowest bit says whether a metainfo byte follows
        }
        template<class T>
        constexpr uint32_t type_hash()
        {
            using Tie = decltype(ylt_refl_tie(std::declval<T&>()));
            return hash_of<T>((Tie*) nullptr);
        }
        inline int width_class(size_t n) { return n < 256 ? 0 : n < 65536 ? 1 : n <= 0xffffffffu ? 2 : 3; }
        template<class T>
        int widest(const T& v)
        {
            int w = 0;
            std::apply(
                    [&](const auto&... f) {
                        auto one = [&](const auto& x) {
                            if constexpr (container<std::remove_cvref_t<decltype(x)>>) w = std::max(w, width_class(x.size()));
                        };
                        (one(f), ...);
                    },
                    ylt_refl_tie(v));
            return w;
        }
        template<class T>
        size_t needed(const T& v)
        {
            int w = widest(v);
            size_t n = 4 + (w ? 1 : 0);
            std::apply(
                    [&](const auto&... f) {
                        auto one = [&](const auto& x) {
                            using F = std::remove_cvref_t<decltype(x)>;
                            if constexpr (container<F>)
                                n += (size_t{1} << w) + x.size() * sizeof(typename F::value_type);
                            else
                                n += sizeof(F);
                        };
                        (one(f), ...);
                    },
                    ylt_refl_tie(v));
            return n;
        }
        template<class Buf, class T>
        void append(Buf& out, const T& v)
        {
            const size_t at = out.size();
            out.resize(at + needed(v));
            char* p = (char*) out.data() + at;
            auto put = [&](const void* s, size_t n) {
                if (n) std::memcpy(p, s, n);
                p += n;
            };
            int w = widest(v);
            uint32_t h = type_hash<T>() | (w ? 1 : 0);
            put(&h, 4);
            if (w)
            {
                char m = (char) (w << 3);
                put(&m, 1);
            }
            std::apply(
                    [&](const auto&... f) {
                        auto one = [&](const auto& x) {
                            using F = std::remove_cvref_t<decltype(x)>;
                            if constexpr (container<F>)
                            {
                                uint64_t n = x.size();
                                put(&n, size_t{1} << w);
                                put(x.data(), x.size() * sizeof(typename F::value_type));
                            }
                            else
                                put(&x, sizeof(F));
                        };
                        (one(f), ...);
                    },
                    ylt_refl_tie(v));
        }
    }  // namespace detail

    template<class T>
    serialize_buffer_size get_needed_size(const T& v)
    {
        return {detail::needed(v)};
    }
    template<class Buf = std::vector<char>, class T>
    Buf serialize(const T& v)
    {
        Buf b;
        detail::append(b, v);
        return b;
    }
    template<class Buf, class T>
    void serialize_to(Buf& b, const T& v)
    {
        detail::append(b, v);
    }
    template<class T, class View>
    std::expected<T, err_code> deserialize(const View& view)
    {
        const char* p = (const char*) view.data();
        size_t left = view.size() * sizeof(*view.data());
        auto get = [&](void* d, size_t n) {
            if (n > left) return false;
            if (n) std::memcpy(d, p, n);
            p += n;
            left -= n;
            return true;
        };
        uint32_t h = 0;
        if (!get(&h, 4)) return std::unexpected(err_code{errc::no_buffer_space});
        if ((h & ~1u) != detail::type_hash<T>()) return std::unexpected(err_code{errc::hash_conflict});
        int w = 0;
        if (h & 1)
        {
            unsigned char m = 0;
            if (!get(&m, 1)) return std::unexpected(err_code{errc::no_buffer_space});
            w = (m >> 3) & 3;
            if ((m & ~0x18) != 0) return std::unexpected(err_code{errc::invalid_buffer});
        }
        T v{};
        errc e = errc::ok;
        std::apply(
                [&](auto&... f) {
                    auto one = [&](auto& x) {
                        using F = std::remove_cvref_t<decltype(x)>;
                        if (e != errc::ok) return;
                        if constexpr (detail::container<F>)
                        {
                            uint64_t n = 0;
                            if (!get(&n, size_t{1} << w) || n > left / sizeof(typename F::value_type))
                            {
                                e = errc::no_buffer_space;
                                return;
                            }
                            x.resize((size_t) n);
                            if (!get(x.data(), (size_t) n * sizeof(typename F::value_type))) e = errc::no_buffer_space;
                        }
                        else if (!get(&x, sizeof(F)))
                            e = errc::no_buffer_space;
                    };
                    (one(f), ...);
                },
                ylt_refl_tie(v));
        if (e != errc::ok) return std::unexpected(err_code{e});
        return v;
    }
    template<class T>
    std::expected<T, err_code> deserialize(const char* p, size_t n)
    {
        return deserialize<T>(std::span<const char>(p, n));
    }
}  // namespace struct_pack
