/* Stand-in for github.com/petergjoel/ptrie (not available offline).
 *
 * Same interface as the subset of ptrie that verifypn uses; inside it is the
 * obvious thing: a hash map from the key's elements to a dense index handed out in
 * insertion order, plus the list of keys.  Written for the simulator, it
 * contains no code of ptrie. */
#ifndef SIM_PTRIE_H
#define SIM_PTRIE_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ptrie {
    typedef unsigned int uint;
    typedef unsigned char uchar;
    typedef std::pair<bool, size_t> returntype_t;

    struct nothing_t {};

    template<typename KEY>
    class store_t {
    protected:
        std::unordered_map<std::string, size_t> _index;
        std::deque<const std::string*> _keys;

        static std::string bytes(const KEY *data, size_t n) {
            return std::string(reinterpret_cast<const char *>(data), n * sizeof(KEY));
        }

    public:
        store_t() = default;
        store_t(const store_t&) = delete;
        store_t& operator=(const store_t&) = delete;
        store_t(store_t&&) = default;
        store_t& operator=(store_t&&) = default;

        returntype_t insert(const KEY *data, size_t n) {
            auto r = _index.emplace(bytes(data, n), _keys.size());
            if (r.second)
                _keys.push_back(&r.first->first);
            return {r.second, r.first->second};
        }
        returntype_t insert(const KEY key) { return insert(&key, 1); }
        returntype_t insert(const std::vector<KEY> &k) { return insert(k.data(), k.size()); }
        returntype_t insert(const std::pair<KEY *, size_t> &k) { return insert(k.first, k.second); }

        returntype_t exists(const KEY *data, size_t n) const {
            auto it = _index.find(bytes(data, n));
            if (it == _index.end())
                return {false, 0};
            return {true, it->second};
        }
        returntype_t exists(const KEY key) const { return exists(&key, 1); }
        returntype_t exists(const std::vector<KEY> &k) const { return exists(k.data(), k.size()); }

        size_t unpack(size_t id, KEY *dest) const {
            const std::string &k = *_keys[id];
            std::memcpy(dest, k.data(), k.size());
            return k.size() / sizeof(KEY);
        }
        std::vector<KEY> unpack(size_t id) const {
            std::vector<KEY> v(_keys[id]->size() / sizeof(KEY));
            unpack(id, v.data());
            return v;
        }
        size_t size() const { return _keys.size(); }
    };

    template<typename KEY = uchar, uint16_t HEAPBOUND = 17, uint16_t SPLITBOUND = 128, uint8_t BSIZE = 8,
             size_t ALLOCSIZE = (1024 * 64), typename T = void, typename I = size_t>
    class set : public store_t<KEY> {};

    template<typename KEY = uchar, typename I = size_t, uint16_t HEAPBOUND = 17, uint16_t SPLITBOUND = 128,
             size_t ALLOCSIZE = (1024 * 64), typename T = void>
    class set_stable : public store_t<KEY> {};

    template<typename KEY, typename T, typename I = size_t, uint16_t HEAPBOUND = 17, uint16_t SPLITBOUND = 128,
             size_t ALLOCSIZE = (1024 * 64)>
    class map : public store_t<KEY> {
        std::deque<T> _data; // references stay valid, as in ptrie

    public:
        returntype_t insert(const KEY *data, size_t n) {
            auto r = store_t<KEY>::insert(data, n);
            if (r.first)
                _data.emplace_back(T{});
            return r;
        }
        returntype_t insert(const KEY key) { return insert(&key, 1); }
        returntype_t insert(const std::vector<KEY> &k) { return insert(k.data(), k.size()); }

        T &get_data(size_t id) { return _data[id]; }
        const T &get_data(size_t id) const { return _data[id]; }
        T &operator[](KEY key) { return _data[insert(key).second]; }
    };
}
#endif
