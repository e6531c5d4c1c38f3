// Force-included into every C++ source of the library under check.  Everything the library
// takes from TBB stays TBB, except the constructs through which the scheduler could make
// results differ: parallel_for, parallel_sort and enumerable_thread_specific are replaced
// by versions whose partition, order and thread assignment are decided by vpsched.
#ifndef VP_TBB_H
#define VP_TBB_H
#ifdef __cplusplus
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
#include <tbb/blocked_range.h>
#include <tbb/blocked_range2d.h>
#include <tbb/combinable.h>
#include <tbb/concurrent_hash_map.h>
#include <tbb/concurrent_vector.h>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include <tbb/parallel_for_each.h>
#include <tbb/parallel_invoke.h>
#include <tbb/parallel_reduce.h>
#include <tbb/parallel_sort.h>
#include <tbb/partitioner.h>
#include <tbb/task_arena.h>

#include "vpsched.h"

namespace vps {
struct Ignore
{
    Ignore() { vps_ignore(1); }
    ~Ignore() { vps_ignore(-1); }
};

} // namespace vps

namespace tbb {

template<typename T, typename Alloc = void, int Key = 0> class vp_ets
{
    using Item = std::pair<long, std::shared_ptr<T>>;
    using Items = std::vector<Item>;

    template<bool C> class iter
    {
        using base_t = std::conditional_t<C, typename Items::const_iterator, typename Items::iterator>;

    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = std::conditional_t<C, const T*, T*>;
        using reference = std::conditional_t<C, const T&, T&>;
        iter() = default;
        explicit iter(base_t b) : m_b(b) {}
        template<bool D, typename = std::enable_if_t<C && !D>> iter(const iter<D>& o) : m_b(o.base()) {}
        base_t base() const { return m_b; }
        reference operator*() const { return *m_b->second; }
        pointer operator->() const { return m_b->second.get(); }
        reference operator[](difference_type n) const { return *m_b[n].second; }
        iter& operator++() { ++m_b; return *this; }
        iter operator++(int) { iter t(*this); ++m_b; return t; }
        iter& operator--() { --m_b; return *this; }
        iter operator--(int) { iter t(*this); --m_b; return t; }
        iter& operator+=(difference_type n) { m_b += n; return *this; }
        iter& operator-=(difference_type n) { m_b -= n; return *this; }
        friend iter operator+(iter a, difference_type n) { a += n; return a; }
        friend iter operator-(iter a, difference_type n) { a -= n; return a; }
        friend difference_type operator-(const iter& a, const iter& b) { return a.m_b - b.m_b; }
        bool operator==(const iter& o) const { return m_b == o.m_b; }
        bool operator!=(const iter& o) const { return m_b != o.m_b; }
        bool operator<(const iter& o) const { return m_b < o.m_b; }
        bool operator>(const iter& o) const { return o.m_b < m_b; }
        bool operator<=(const iter& o) const { return !(o.m_b < m_b); }
        bool operator>=(const iter& o) const { return !(m_b < o.m_b); }

    private:
        base_t m_b;
    };

public:
    using value_type = T;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using allocator_type = std::allocator<T>;
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    using range_type = tbb::blocked_range<iterator>;
    using const_range_type = tbb::blocked_range<const_iterator>;

    vp_ets() : m_make([]() { return std::make_shared<T>(); }) {}
    explicit vp_ets(const T& exemplar) : m_make([exemplar]() { return std::make_shared<T>(exemplar); }) {}
    explicit vp_ets(T&& exemplar)
    {
        auto ex = std::make_shared<T>(std::move(exemplar));
        m_make = [ex]() { return std::make_shared<T>(*ex); };
    }
    template<typename F, typename = decltype(std::declval<F&>()()),
             typename = std::enable_if_t<!std::is_same<std::decay_t<F>, vp_ets>::value
                                         && !std::is_same<std::decay_t<F>, T>::value>>
    explicit vp_ets(F f) : m_make([f]() mutable { return std::shared_ptr<T>(new T(f())); })
    {}
    template<typename P1, typename... Ps,
             typename = std::enable_if_t<!std::is_same<std::decay_t<P1>, vp_ets>::value
                                         && !std::is_same<std::decay_t<P1>, T>::value
                                         && !std::is_invocable<P1&>::value
                                         && std::is_constructible<T, P1, Ps...>::value>>
    vp_ets(P1 p1, Ps... ps) : m_make([p1, ps...]() { return std::make_shared<T>(p1, ps...); })
    {}
    vp_ets(const vp_ets& o) : m_make(o.m_make) { copy(o); }
    vp_ets(vp_ets&& o) noexcept : m_make(std::move(o.m_make)), m_items(std::move(o.m_items))
    {
        o.m_make = m_make;
        o.m_items.clear();
    }
    vp_ets& operator=(const vp_ets& o)
    {
        if (this != &o)
        {
            m_make = o.m_make;
            m_items.clear();
            copy(o);
        }
        return *this;
    }
    vp_ets& operator=(vp_ets&& o) noexcept
    {
        if (this != &o)
        {
            m_make = std::move(o.m_make);
            o.m_make = m_make;
            m_items = std::move(o.m_items);
            o.m_items.clear();
        }
        return *this;
    }
    ~vp_ets() = default;

    T& local()
    {
        bool exists = false;
        return local(exists);
    }
    T& local(bool& exists)
    {
        vps::Ignore ig;
        const long key = vps_thread_key();
        vps_lock();
        for (auto& it : m_items)
        {
            if (it.first == key)
            {
                T& r = *it.second;
                vps_unlock();
                exists = true;
                return r;
            }
        }
        vps_unlock();
        auto p = m_make();
        vps_lock();
        m_items.emplace_back(key, p);
        vps_unlock();
        exists = false;
        return *p;
    }
    void clear() { m_items.clear(); }
    bool empty() const { return m_items.empty(); }
    size_type size() const { return m_items.size(); }
    iterator begin() { return iterator(m_items.begin()); }
    iterator end() { return iterator(m_items.end()); }
    const_iterator begin() const { return const_iterator(m_items.begin()); }
    const_iterator end() const { return const_iterator(m_items.end()); }
    range_type range(size_t grain = 1) { return range_type(begin(), end(), grain); }
    const_range_type range(size_t grain = 1) const { return const_range_type(begin(), end(), grain); }
    template<typename F> T combine(F f)
    {
        if (m_items.empty())
        {
            return *m_make();
        }
        auto it = m_items.begin();
        T r = *it->second;
        for (++it; it != m_items.end(); ++it)
        {
            r = f(r, *it->second);
        }
        return r;
    }
    template<typename F> void combine_each(F f)
    {
        for (auto& it : m_items)
        {
            f(*it.second);
        }
    }
    void swap(vp_ets& o)
    {
        std::swap(m_make, o.m_make);
        std::swap(m_items, o.m_items);
    }

private:
    void copy(const vp_ets& o)
    {
        for (const auto& it : o.m_items)
        {
            m_items.emplace_back(it.first, std::make_shared<T>(*it.second));
        }
    }
    std::function<std::shared_ptr<T>()> m_make;
    Items m_items;
};

//! A container of containers seen as one sequence.
template<typename Container> class vp_flattened2d
{
    using conval_type = typename Container::value_type;

public:
    using size_type = typename conval_type::size_type;
    using difference_type = typename conval_type::difference_type;
    using value_type = typename conval_type::value_type;
    using reference = typename conval_type::reference;
    using const_reference = typename conval_type::const_reference;
    using iterator = typename std::vector<value_type>::iterator;
    using const_iterator = typename std::vector<value_type>::const_iterator;

    template<typename It> vp_flattened2d(const Container& /*c*/, It b, It e)
    {
        for (; b != e; ++b)
        {
            m_all.insert(m_all.end(), b->begin(), b->end());
        }
    }
    explicit vp_flattened2d(const Container& c) : vp_flattened2d(c, c.begin(), c.end()) {}
    iterator begin() { return m_all.begin(); }
    iterator end() { return m_all.end(); }
    const_iterator begin() const { return m_all.begin(); }
    const_iterator end() const { return m_all.end(); }
    size_type size() const { return m_all.size(); }

private:
    std::vector<value_type> m_all;
};
template<typename Container> vp_flattened2d<Container> vp_flatten2d(const Container& c)
{
    return vp_flattened2d<Container>(c);
}
template<typename Container, typename It>
vp_flattened2d<Container> vp_flatten2d(const Container& c, It b, It e)
{
    return vp_flattened2d<Container>(c, b, e);
}

template<typename It, typename Cmp> void vp_parallel_sort(It b, It e, const Cmp& cmp)
{
    // TBB's order of equivalent elements is unspecified: enumerate three different ones.
    int c = (vps_mode() == 1 && e - b > 1) ? vps_choose(3, 2) : 0;
    if (c == 0)
    {
        std::sort(b, e, cmp);
    }
    else
    {
        if (c == 2)
        {
            std::reverse(b, e);
        }
        std::stable_sort(b, e, cmp);
    }
}
template<typename It> void vp_parallel_sort(It b, It e)
{
    vp_parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>());
}
template<typename R> auto vp_parallel_sort(R& r) -> decltype(r.begin(), void())
{
    vp_parallel_sort(r.begin(), r.end());
}

template<typename V, typename Body> void vp_run_range(const tbb::blocked_range<V>& r, const Body& body)
{
    if (r.empty())
    {
        return;
    }
    const size_t n = r.size();
    std::vector<std::function<void()>> tasks;
    std::vector<int> workers;
    {
        vps::Ignore ig;
        auto plan = vps::plan(n);
        // A grain size limits how finely the range may be split.
        if (r.grainsize() > 1)
        {
            for (const auto& c : plan)
            {
                if (plan.size() > 1 && 2 * (c.end - c.begin) < r.grainsize())
                {
                    plan = {vps::Chunk {0, n, 0}};
                    break;
                }
            }
        }
        for (const auto& c : plan)
        {
            const V cb = static_cast<V>(r.begin() + c.begin);
            const V ce = static_cast<V>(r.begin() + c.end);
            tasks.push_back([cb, ce, &body]() { body(tbb::blocked_range<V>(cb, ce)); });
            workers.push_back(c.worker);
        }
    }
    vps::run(tasks, workers);
}

template<typename R, typename C, typename Body>
void vp_run_range(const tbb::blocked_range2d<R, C>& r, const Body& body)
{
    if (r.empty())
    {
        return;
    }
    std::vector<std::function<void()>> tasks;
    std::vector<int> workers;
    {
        vps::Ignore ig;
        std::vector<vps::Chunk> rows, cols;
        vps::plan2(r.rows().size(), r.cols().size(), rows, cols);
        int w = 0;
        for (const auto& a : rows)
        {
            for (const auto& b : cols)
            {
                const R rb = static_cast<R>(r.rows().begin() + a.begin);
                const R re = static_cast<R>(r.rows().begin() + a.end);
                const C cb = static_cast<C>(r.cols().begin() + b.begin);
                const C ce = static_cast<C>(r.cols().begin() + b.end);
                tasks.push_back(
                    [rb, re, cb, ce, &body]() { body(tbb::blocked_range2d<R, C>(rb, re, cb, ce)); });
                workers.push_back(vps_mode() >= 2 ? w : (a.worker ^ b.worker));
                ++w;
            }
        }
    }
    vps::run(tasks, workers);
}

template<typename Range, typename Body> void vp_run_range(const Range& r, const Body& body)
{
    body(r);
}

template<typename Range, typename Body,
         typename = std::enable_if_t<!std::is_integral<Range>::value>, typename... Part>
void vp_parallel_for(const Range& r, const Body& body, Part&&... /*partitioner, context*/)
{
    vp_run_range(r, body);
}
template<typename I, typename F, typename = std::enable_if_t<std::is_integral<I>::value>,
         typename = decltype(std::declval<const F&>()(std::declval<I>())), typename... Part>
void vp_parallel_for(I first, I last, const F& f, Part&&... /*partitioner, context*/)
{
    if (first < last)
    {
        vp_run_range(tbb::blocked_range<I>(first, last), [&f](const tbb::blocked_range<I>& r) {
            for (I i = r.begin(); i < r.end(); ++i)
            {
                f(i);
            }
        });
    }
}
template<typename I, typename F, typename = std::enable_if_t<std::is_integral<I>::value>,
         typename = decltype(std::declval<const F&>()(std::declval<I>())), typename... Part>
void vp_parallel_for(I first, I last, I step, const F& f, Part&&... /*partitioner, context*/)
{
    if (first < last)
    {
        const I n = (last - first - I(1)) / step + I(1);
        vp_run_range(tbb::blocked_range<I>(I(0), n), [&](const tbb::blocked_range<I>& r) {
            for (I i = r.begin(); i < r.end(); ++i)
            {
                f(static_cast<I>(first + i * step));
            }
        });
    }
}
} // namespace tbb

#define parallel_for vp_parallel_for
#define parallel_sort vp_parallel_sort
#define enumerable_thread_specific vp_ets
#define flattened2d vp_flattened2d
#define flatten2d vp_flatten2d
#endif
#endif
