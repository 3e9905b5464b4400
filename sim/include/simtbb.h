// A stand-in for oneTBB whose every scheduling freedom is decided by the
// simulator runtime (see rt/simrt.h). Same names and contracts as oneTBB for the
// parts a numerical library uses; nothing here runs in parallel.
#ifndef SIMTBB_H
#define SIMTBB_H

#include "simrt.h"

#include <algorithm>
#include <cstddef>
#include <deque>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <queue>
#include <set>
#include <shared_mutex>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#ifndef TBB_VERSION_MAJOR
#define TBB_VERSION_MAJOR 2021
#define TBB_VERSION_MINOR 11
#define TBB_INTERFACE_VERSION 12110
#endif

namespace oneapi { namespace tbb {
}}
namespace tbb = oneapi::tbb;

namespace oneapi { namespace tbb {

using simtbb_detail::Ignore;

class split
{};

class proportional_split
{
public:
    proportional_split(size_t l = 1, size_t r = 1) : m_l(l), m_r(r) {}
    size_t left() const { return m_l; }
    size_t right() const { return m_r; }
    explicit operator split() const { return split(); }

private:
    size_t m_l, m_r;
};

// ---------------------------------------------------------------- ranges
template<typename Value> class blocked_range
{
public:
    using const_iterator = Value;
    using size_type = std::size_t;
    blocked_range(Value b, Value e, size_type g = 1) : m_end(e), m_begin(b), m_grain(g) {}
    blocked_range(blocked_range& r, split) : m_end(r.m_end), m_begin(r.m_begin + (r.m_end - r.m_begin) / 2), m_grain(r.m_grain)
    {
        r.m_end = m_begin;
    }
    blocked_range(blocked_range& r, proportional_split p) : m_end(r.m_end), m_begin(r.m_begin), m_grain(r.m_grain)
    {
        size_type n = r.size();
        size_type right = n * p.right() / (p.left() + p.right());
        right = std::max<size_type>(1, std::min<size_type>(n - 1, right));
        m_begin = r.m_end - right;
        r.m_end = m_begin;
    }
    const_iterator begin() const { return m_begin; }
    const_iterator end() const { return m_end; }
    size_type size() const { return size_type(m_end - m_begin); }
    size_type grainsize() const { return m_grain; }
    bool empty() const { return !(m_begin < m_end); }
    bool is_divisible() const { return m_grain < size(); }

private:
    Value m_end;
    Value m_begin;
    size_type m_grain;
};

template<typename RowValue, typename ColValue = RowValue> class blocked_range2d
{
public:
    using row_range_type = blocked_range<RowValue>;
    using col_range_type = blocked_range<ColValue>;
    blocked_range2d(RowValue rb, RowValue re, typename row_range_type::size_type rg, ColValue cb, ColValue ce,
                    typename col_range_type::size_type cg)
        : m_rows(rb, re, rg), m_cols(cb, ce, cg)
    {}
    blocked_range2d(RowValue rb, RowValue re, ColValue cb, ColValue ce) : m_rows(rb, re), m_cols(cb, ce) {}
    blocked_range2d(const row_range_type& r, const col_range_type& c) : m_rows(r), m_cols(c) {}
    blocked_range2d(blocked_range2d& r, split) : m_rows(r.m_rows), m_cols(r.m_cols) { do_split(r, proportional_split(1, 1)); }
    blocked_range2d(blocked_range2d& r, proportional_split p) : m_rows(r.m_rows), m_cols(r.m_cols) { do_split(r, p); }
    const row_range_type& rows() const { return m_rows; }
    const col_range_type& cols() const { return m_cols; }
    bool empty() const { return m_rows.empty() || m_cols.empty(); }
    bool is_divisible() const { return m_rows.is_divisible() || m_cols.is_divisible(); }
    size_t size() const { return m_rows.size() * m_cols.size(); }

private:
    void do_split(blocked_range2d& r, proportional_split p)
    {
        bool rowdiv = m_rows.is_divisible(), coldiv = m_cols.is_divisible();
        bool by_row = rowdiv && (!coldiv || double(m_rows.size()) * double(m_cols.grainsize()) >= double(m_cols.size()) * double(m_rows.grainsize()));
        if (by_row)
            m_rows = row_range_type(r.m_rows, p);
        else
            m_cols = col_range_type(r.m_cols, p);
    }
    row_range_type m_rows;
    col_range_type m_cols;
};

template<typename P, typename Rw = P, typename C = Rw> class blocked_range3d
{
public:
    using page_range_type = blocked_range<P>;
    using row_range_type = blocked_range<Rw>;
    using col_range_type = blocked_range<C>;
    blocked_range3d(P pb, P pe, Rw rb, Rw re, C cb, C ce) : m_pages(pb, pe), m_rows(rb, re), m_cols(cb, ce) {}
    blocked_range3d(P pb, P pe, size_t pg, Rw rb, Rw re, size_t rg, C cb, C ce, size_t cg)
        : m_pages(pb, pe, pg), m_rows(rb, re, rg), m_cols(cb, ce, cg)
    {}
    blocked_range3d(blocked_range3d& r, split) : m_pages(r.m_pages), m_rows(r.m_rows), m_cols(r.m_cols) { do_split(r, proportional_split(1, 1)); }
    blocked_range3d(blocked_range3d& r, proportional_split p) : m_pages(r.m_pages), m_rows(r.m_rows), m_cols(r.m_cols) { do_split(r, p); }
    const page_range_type& pages() const { return m_pages; }
    const row_range_type& rows() const { return m_rows; }
    const col_range_type& cols() const { return m_cols; }
    bool empty() const { return m_pages.empty() || m_rows.empty() || m_cols.empty(); }
    bool is_divisible() const { return m_pages.is_divisible() || m_rows.is_divisible() || m_cols.is_divisible(); }
    size_t size() const { return m_pages.size() * m_rows.size() * m_cols.size(); }

private:
    void do_split(blocked_range3d& r, proportional_split p)
    {
        size_t a = m_pages.is_divisible() ? m_pages.size() : 0, b = m_rows.is_divisible() ? m_rows.size() : 0,
               c = m_cols.is_divisible() ? m_cols.size() : 0;
        if (a >= b && a >= c)
            m_pages = page_range_type(r.m_pages, p);
        else if (b >= c)
            m_rows = row_range_type(r.m_rows, p);
        else
            m_cols = col_range_type(r.m_cols, p);
    }
    page_range_type m_pages;
    row_range_type m_rows;
    col_range_type m_cols;
};

// ---------------------------------------------------------------- partitioners, contexts
class simple_partitioner
{};
class auto_partitioner
{};
class static_partitioner
{};
class affinity_partitioner
{};
class task_group_context
{
public:
    enum kind_type { isolated, bound };
    task_group_context(kind_type = bound, size_t = 0) {}
    bool cancel_group_execution() { return false; }
    bool is_group_execution_cancelled() const { return false; }
    void reset() {}
};

namespace sim_detail {

template<typename T, typename = void> struct range_size
{
    static size_t of(const T&) { return 64; }
};
template<typename T> struct range_size<T, std::void_t<decltype(std::declval<const T&>().size())>>
{
    static size_t of(const T& r) { return (size_t) r.size(); }
};

template<typename Range> void split_range(const Range& whole, std::deque<Range>& out)
{
    struct Item
    {
        Range r;
        int depth;
    };
    std::vector<Item> stack;
    stack.push_back(Item {whole, 0});
    while (!stack.empty())
    {
        Item it = stack.back();
        stack.pop_back();
        uint32_t v = 0;
        if (it.r.is_divisible())
            v = sim_split_choice(range_size<Range>::of(it.r), it.depth);
        if (v == 0)
        {
            out.push_back(it.r);
            continue;
        }
        if constexpr (std::is_constructible<Range, Range&, proportional_split>::value)
        {
            proportional_split p(v, 16 - v);
            Range right(it.r, p);
            stack.push_back(Item {right, it.depth + 1});
        }
        else
        {
            Range right(it.r, split());
            stack.push_back(Item {right, it.depth + 1});
        }
        stack.push_back(Item {it.r, it.depth + 1});
    }
}

inline void run(size_t n, void (*fn)(void*, size_t), void* ctx)
{
    sim_region_run(fn, ctx, n);
}

template<typename Range, typename Body> void for_range(const Range& range, const Body& body)
{
    if (range.empty())
        return;
    sim_region_begin(range_size<Range>::of(range));
    struct Ctx
    {
        std::deque<Range> chunks;
        const Body* body;
    } c;
    {
        Ignore ig;
        split_range(range, c.chunks);
    }
    c.body = &body;
    sim_tbb_alloc_point(); // spawning tasks allocates
    sim_region_run(
        [](void* p, size_t i) {
            Ctx* x = static_cast<Ctx*>(p);
            Range r = x->chunks[i];
            Body b(*x->body);
            const Body& cb = b;
            cb(r);
        },
        &c, c.chunks.size());
}

// Run n independent tasks.
template<typename F> void for_n(size_t n, const F& f)
{
    if (n == 0)
        return;
    sim_region_begin(n);
    sim_region_run([](void* p, size_t i) { (*static_cast<const F*>(p))(i); }, const_cast<F*>(&f), n);
}
} // namespace sim_detail

// ---------------------------------------------------------------- algorithms
template<typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible()), typename... Opt>
void parallel_for(const Range& range, const Body& body, Opt&&...)
{
    sim_detail::for_range(range, body);
}
template<typename Index, typename F, typename... Opt,
         typename = std::enable_if_t<std::is_integral<Index>::value && std::is_invocable<const F&, Index>::value>>
void parallel_for(Index first, Index last, const F& f, Opt&&...)
{
    if (!(first < last))
        return;
    sim_detail::for_range(blocked_range<Index>(first, last), [&f](const blocked_range<Index>& r) {
        for (Index i = r.begin(); i != r.end(); ++i)
            f(i);
    });
}
template<typename Index, typename F, typename... Opt,
         typename = std::enable_if_t<std::is_integral<Index>::value && std::is_invocable<const F&, Index>::value>>
void parallel_for(Index first, Index last, Index step, const F& f, Opt&&...)
{
    if (!(first < last))
        return;
    Index n = (last - first - Index(1)) / step + Index(1);
    sim_detail::for_range(blocked_range<Index>(Index(0), n), [&f, first, step](const blocked_range<Index>& r) {
        for (Index i = r.begin(); i != r.end(); ++i)
            f(Index(first + i * step));
    });
}

template<typename It, typename F, typename... Opt> void parallel_for_each(It first, It last, const F& f, Opt&&...)
{
    std::vector<It> its;
    {
        Ignore ig;
        for (It i = first; i != last; ++i)
            its.push_back(i);
    }
    sim_detail::for_n(its.size(), [&](size_t i) { f(*its[i]); });
}
template<typename C, typename F, typename = decltype(std::begin(std::declval<C&>()))> void parallel_for_each(C&& c, const F& f)
{
    parallel_for_each(std::begin(c), std::end(c), f);
}

template<typename... F> void parallel_invoke(F&&... fs)
{
    std::vector<std::function<void()>> v {std::function<void()>(std::ref(fs))...};
    sim_detail::for_n(v.size(), [&](size_t i) { v[i](); });
}

// Functional form: the join order is fixed, the grouping is the scheduler's.
template<typename Range, typename Value, typename RealBody, typename Reduction, typename... Opt>
Value parallel_reduce(const Range& range, const Value& identity, const RealBody& body, const Reduction& red, Opt&&...)
{
    if (range.empty())
        return identity;
    sim_region_begin(sim_detail::range_size<Range>::of(range));
    std::deque<Range> chunks;
    {
        Ignore ig;
        sim_detail::split_range(range, chunks);
    }
    std::deque<Value> vals;
    for (size_t i = 0; i < chunks.size(); ++i)
        vals.push_back(identity);
    struct Ctx
    {
        std::deque<Range>* c;
        std::deque<Value>* v;
        const RealBody* b;
    } ctx {&chunks, &vals, &body};
    sim_region_run(
        [](void* p, size_t i) {
            Ctx* x = static_cast<Ctx*>(p);
            (*x->v)[i] = (*x->b)((*x->c)[i], (*x->v)[i]);
        },
        &ctx, chunks.size());
    Value acc = vals[0];
    for (size_t i = 1; i < vals.size(); ++i)
        acc = red(acc, vals[i]);
    return acc;
}
template<typename Range, typename Body, typename... Opt> void parallel_reduce(const Range& range, Body& body, Opt&&...)
{
    if (range.empty())
        return;
    sim_region_begin(sim_detail::range_size<Range>::of(range));
    std::deque<Range> chunks;
    {
        Ignore ig;
        sim_detail::split_range(range, chunks);
    }
    std::deque<Body> bodies;
    for (size_t i = 1; i < chunks.size(); ++i)
        bodies.emplace_back(body, split());
    struct Ctx
    {
        std::deque<Range>* c;
        std::deque<Body>* v;
        Body* b0;
    } ctx {&chunks, &bodies, &body};
    sim_region_run(
        [](void* p, size_t i) {
            Ctx* x = static_cast<Ctx*>(p);
            (i == 0 ? *x->b0 : (*x->v)[i - 1])((*x->c)[i]);
        },
        &ctx, chunks.size());
    for (auto& b : bodies)
        body.join(b);
}
// Deterministic form: grouping depends on the range alone.
template<typename Range, typename Value, typename RealBody, typename Reduction, typename... Opt>
Value parallel_deterministic_reduce(const Range& range, const Value& identity, const RealBody& body, const Reduction& red, Opt&&...)
{
    if (range.empty())
        return identity;
    std::deque<Range> chunks, todo {range};
    while (!todo.empty())
    {
        Range r = todo.front();
        todo.pop_front();
        if (r.is_divisible())
        {
            Range right(r, split());
            todo.push_front(right);
            todo.push_front(r);
        }
        else
            chunks.push_back(r);
    }
    std::deque<Value> vals;
    for (size_t i = 0; i < chunks.size(); ++i)
        vals.push_back(identity);
    sim_detail::for_n(chunks.size(), [&](size_t i) { vals[i] = body(chunks[i], vals[i]); });
    Value acc = vals[0];
    for (size_t i = 1; i < vals.size(); ++i)
        acc = red(acc, vals[i]);
    return acc;
}

// Unstable: equivalent elements may come out in any order.
template<typename It, typename Cmp> void parallel_sort(It first, It last, const Cmp& cmp)
{
    Ignore ig;
    uint64_t s = sim_sort_seed();
    if (s != 0)
    {
        auto n = last - first;
        for (decltype(n) i = n - 1; i > 0; --i)
        {
            s = s * 6364136223846793005ULL + 1442695040888963407ULL;
            auto j = (decltype(n)) ((s >> 33) % (uint64_t) (i + 1));
            std::iter_swap(first + i, first + j);
        }
    }
    std::sort(first, last, cmp);
}
template<typename It> void parallel_sort(It first, It last)
{
    parallel_sort(first, last, std::less<typename std::iterator_traits<It>::value_type>());
}
template<typename C, typename = decltype(std::begin(std::declval<C&>()))> void parallel_sort(C&& c)
{
    parallel_sort(std::begin(c), std::end(c));
}
template<typename C, typename Cmp, typename = decltype(std::begin(std::declval<C&>())), typename = void>
void parallel_sort(C&& c, const Cmp& cmp)
{
    parallel_sort(std::begin(c), std::end(c), cmp);
}

// ---------------------------------------------------------------- enumerable_thread_specific
enum ets_key_usage_type
{
    ets_key_per_instance,
    ets_no_key,
    ets_suspend_aware
};

namespace sim_detail {
// Random-access iterator over owned slots, in creation order.
template<typename T, typename Vec> class slot_iterator
{
public:
    using difference_type = std::ptrdiff_t;
    using value_type = std::remove_const_t<T>;
    using reference = T&;
    using pointer = T*;
    using iterator_category = std::random_access_iterator_tag;
    slot_iterator() = default;
    slot_iterator(Vec* v, size_t i) : m_v(v), m_i(i) {}
    template<typename U, typename V2> slot_iterator(const slot_iterator<U, V2>& o) : m_v(o.m_v), m_i(o.m_i) {}
    reference operator*() const { return *(*m_v)[m_i].second; }
    pointer operator->() const { return (*m_v)[m_i].second.get(); }
    reference operator[](difference_type n) const { return *(*m_v)[m_i + n].second; }
    slot_iterator& operator++() { ++m_i; return *this; }
    slot_iterator operator++(int) { auto t = *this; ++m_i; return t; }
    slot_iterator& operator--() { --m_i; return *this; }
    slot_iterator operator--(int) { auto t = *this; --m_i; return t; }
    slot_iterator& operator+=(difference_type n) { m_i += n; return *this; }
    slot_iterator& operator-=(difference_type n) { m_i -= n; return *this; }
    slot_iterator operator+(difference_type n) const { return {m_v, m_i + n}; }
    slot_iterator operator-(difference_type n) const { return {m_v, m_i - n}; }
    difference_type operator-(const slot_iterator& o) const { return (difference_type) m_i - (difference_type) o.m_i; }
    bool operator==(const slot_iterator& o) const { return m_i == o.m_i; }
    bool operator!=(const slot_iterator& o) const { return m_i != o.m_i; }
    bool operator<(const slot_iterator& o) const { return m_i < o.m_i; }
    bool operator>(const slot_iterator& o) const { return m_i > o.m_i; }
    bool operator<=(const slot_iterator& o) const { return m_i <= o.m_i; }
    bool operator>=(const slot_iterator& o) const { return m_i >= o.m_i; }
    Vec* m_v = nullptr;
    size_t m_i = 0;
};
} // namespace sim_detail

template<typename T, typename Alloc = std::allocator<T>, ets_key_usage_type K = ets_no_key> class enumerable_thread_specific
{
    using slots_type = std::vector<std::pair<int, std::unique_ptr<T>>>;
    struct maker_base
    {
        virtual ~maker_base() = default;
        virtual T* make() = 0;
        virtual maker_base* clone() const = 0;
    };
    template<typename F> struct maker : maker_base
    {
        F f;
        explicit maker(F g) : f(std::move(g)) {}
        T* make() override { return f(); }
        maker_base* clone() const override { return new maker(*this); }
    };
    template<typename F> void set_maker(F f) { m_make.reset(new maker<F>(std::move(f))); }

public:
    using value_type = T;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using iterator = sim_detail::slot_iterator<T, slots_type>;
    using const_iterator = sim_detail::slot_iterator<const T, const slots_type>;

    class range_type : public blocked_range<iterator>
    {
    public:
        using blocked_range<iterator>::blocked_range;
    };

    enumerable_thread_specific() { init_default(); }
    template<typename F, typename = std::enable_if_t<std::is_invocable<F&>::value && !std::is_same<std::decay_t<F>, enumerable_thread_specific>::value>, typename = void>
    explicit enumerable_thread_specific(F finit)
    {
        set_maker([finit]() mutable { return new T(finit()); });
    }
    explicit enumerable_thread_specific(const T& exemplar)
    {
        set_maker([exemplar]() { return new T(exemplar); });
    }
    explicit enumerable_thread_specific(T&& exemplar)
    {
        auto sp = std::make_shared<T>(std::move(exemplar));
        set_maker([sp]() { return new T(*sp); });
    }
    template<typename A, typename... R,
             typename = std::enable_if_t<!std::is_invocable<std::decay_t<A>&>::value && !std::is_same<T, std::decay_t<A>>::value && !std::is_same<std::decay_t<A>, enumerable_thread_specific>::value>>
    enumerable_thread_specific(A&& a, R&&... r)
    {
        auto tup = std::make_tuple(std::decay_t<A>(a), std::decay_t<R>(r)...);
        set_maker([tup]() { return std::apply([](const auto&... x) { return new T(x...); }, tup); });
    }
    enumerable_thread_specific(const enumerable_thread_specific& o) { copy_from(o); }
    enumerable_thread_specific(enumerable_thread_specific&& o) { swap_(o); if (!o.m_make) o.copy_maker(*this); }
    enumerable_thread_specific& operator=(const enumerable_thread_specific& o)
    {
        if (this != &o)
        {
            m_slots.clear();
            copy_from(o);
        }
        return *this;
    }
    enumerable_thread_specific& operator=(enumerable_thread_specific&& o)
    {
        if (this != &o)
        {
            m_slots.clear();
            swap_(o);
        }
        return *this;
    }

    reference local()
    {
        bool e;
        return local(e);
    }
    reference local(bool& exists)
    {
        int id = sim_worker_id();
        sim_yield_point_if_needed();
        if (T* p = find(id))
        {
            exists = true;
            return *p;
        }
        exists = false;
        sim_tbb_alloc_point();
        std::unique_ptr<T> fresh(m_make->make()); // runs the caller's code: interleaved and checked
        Ignore ig;
        T* raw = fresh.get();
        m_slots.emplace_back(id, std::move(fresh));
        return *raw;
    }
    void clear() { m_slots.clear(); }
    size_type size() const { return m_slots.size(); }
    bool empty() const { return m_slots.empty(); }
    iterator begin() { return iterator(&m_slots, 0); }
    iterator end() { return iterator(&m_slots, m_slots.size()); }
    const_iterator begin() const { return const_iterator(&m_slots, 0); }
    const_iterator end() const { return const_iterator(&m_slots, m_slots.size()); }
    range_type range(size_t grain = 1) { return range_type(begin(), end(), grain); }
    template<typename F> T combine(F f)
    {
        if (m_slots.empty())
        {
            std::unique_ptr<T> p(m_make->make());
            return *p;
        }
        T acc = *m_slots[0].second;
        for (size_t i = 1; i < m_slots.size(); ++i)
            acc = f(acc, *m_slots[i].second);
        return acc;
    }
    template<typename F> void combine_each(F f)
    {
        for (auto& s : m_slots)
            f(*s.second);
    }
    void swap(enumerable_thread_specific& o) { swap_(o); }

private:
    static void sim_yield_point_if_needed() {}
    template<typename U = T> std::enable_if_t<std::is_default_constructible<U>::value> init_default()
    {
        set_maker([]() { return new T(); });
    }
    template<typename U = T> std::enable_if_t<!std::is_default_constructible<U>::value> init_default() {}
    T* find(int id)
    {
        Ignore ig;
        for (auto& s : m_slots)
            if (s.first == id)
                return s.second.get();
        return nullptr;
    }
    void copy_maker(const enumerable_thread_specific& o)
    {
        if (o.m_make)
            m_make.reset(o.m_make->clone());
    }
    template<typename U = T> void copy_from(const enumerable_thread_specific& o)
    {
        copy_maker(o);
        if constexpr (std::is_copy_constructible<U>::value)
            for (auto& s : o.m_slots)
                m_slots.emplace_back(s.first, std::make_unique<T>(*s.second));
    }
    void swap_(enumerable_thread_specific& o)
    {
        std::swap(m_make, o.m_make);
        std::swap(m_slots, o.m_slots);
    }
    std::unique_ptr<maker_base> m_make;
    slots_type m_slots;
};

template<typename T> class combinable
{
public:
    combinable() = default;
    template<typename F> explicit combinable(F f) : m_ets(f) {}
    T& local() { return m_ets.local(); }
    T& local(bool& e) { return m_ets.local(e); }
    void clear() { m_ets.clear(); }
    template<typename F> T combine(F f) { return m_ets.combine(f); }
    template<typename F> void combine_each(F f) { m_ets.combine_each(f); }

private:
    enumerable_thread_specific<T> m_ets;
};

template<typename Container> class flattened2d
{
    using outer_t = decltype(std::declval<Container&>().begin());
    using inner_c = std::remove_reference_t<decltype(*std::declval<outer_t&>())>;
    using inner_t = decltype(std::declval<inner_c&>().begin());

public:
    using value_type = typename inner_c::value_type;
    using size_type = std::size_t;
    class iterator
    {
    public:
        using difference_type = std::ptrdiff_t;
        using value_type = typename inner_c::value_type;
        using reference = decltype(*std::declval<inner_t&>());
        using pointer = std::remove_reference_t<reference>*;
        using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        iterator(outer_t o, outer_t oe) : m_o(o), m_oe(oe)
        {
            if (m_o != m_oe)
            {
                m_i = m_o->begin();
                skip();
            }
        }
        reference operator*() const { return *m_i; }
        pointer operator->() const { return &*m_i; }
        iterator& operator++()
        {
            ++m_i;
            skip();
            return *this;
        }
        iterator operator++(int)
        {
            auto t = *this;
            ++*this;
            return t;
        }
        bool operator==(const iterator& x) const { return m_o == x.m_o && (m_o == m_oe || m_i == x.m_i); }
        bool operator!=(const iterator& x) const { return !(*this == x); }

    private:
        void skip()
        {
            while (m_o != m_oe && m_i == m_o->end())
            {
                ++m_o;
                if (m_o != m_oe)
                    m_i = m_o->begin();
            }
        }
        outer_t m_o {}, m_oe {};
        inner_t m_i {};
    };
    using const_iterator = iterator;
    flattened2d(const Container& c, typename Container::const_iterator, typename Container::const_iterator) : m_c(const_cast<Container*>(&c)) {}
    explicit flattened2d(const Container& c) : m_c(const_cast<Container*>(&c)) {}
    iterator begin() const { return iterator(m_c->begin(), m_c->end()); }
    iterator end() const { return iterator(m_c->end(), m_c->end()); }
    size_type size() const
    {
        size_type n = 0;
        for (auto o = m_c->begin(); o != m_c->end(); ++o)
            n += o->size();
        return n;
    }

private:
    Container* m_c;
};
template<typename C> flattened2d<C> flatten2d(const C& c) { return flattened2d<C>(c); }

// ---------------------------------------------------------------- mutexes
class null_mutex
{
public:
    class scoped_lock
    {
    public:
        scoped_lock() = default;
        explicit scoped_lock(null_mutex&, bool = true) {}
        void acquire(null_mutex&, bool = true) {}
        bool try_acquire(null_mutex&, bool = true) { return true; }
        void release() {}
    };
    void lock() {}
    bool try_lock() { return true; }
    void unlock() {}
};
class mutex
{
public:
    mutex() = default;
    mutex(const mutex&) = delete;
    mutex& operator=(const mutex&) = delete;
    class scoped_lock
    {
    public:
        scoped_lock() = default;
        explicit scoped_lock(mutex& m, bool = true) { acquire(m); }
        ~scoped_lock() { if (m_m) release(); }
        scoped_lock(const scoped_lock&) = delete;
        scoped_lock& operator=(const scoped_lock&) = delete;
        void acquire(mutex& m, bool = true) { m.lock(); m_m = &m; }
        bool try_acquire(mutex& m, bool = true)
        {
            if (!m.try_lock()) return false;
            m_m = &m;
            return true;
        }
        void release() { m_m->unlock(); m_m = nullptr; }
        bool upgrade_to_writer() { return true; }
        bool downgrade_to_reader() { return true; }

    private:
        mutex* m_m = nullptr;
    };
    void lock() { sim_mutex_lock(this); }
    bool try_lock() { return sim_mutex_trylock(this) != 0; }
    void unlock() { sim_mutex_unlock(this); }
    void lock_shared() { lock(); }
    bool try_lock_shared() { return try_lock(); }
    void unlock_shared() { unlock(); }
    static constexpr bool is_rw_mutex = false, is_recursive_mutex = false, is_fair_mutex = false;

private:
    char m_pad = 0;
};
using spin_mutex = mutex;
using speculative_spin_mutex = mutex;
using queuing_mutex = mutex;
using rw_mutex = mutex;
using spin_rw_mutex = mutex;
using speculative_spin_rw_mutex = mutex;
using queuing_rw_mutex = mutex;
using null_rw_mutex = null_mutex;

template<typename T> using cache_aligned_allocator = std::allocator<T>;
template<typename T> using tbb_allocator = std::allocator<T>;
template<typename T> using scalable_allocator = std::allocator<T>;

// ---------------------------------------------------------------- concurrent containers
// Internally synchronised: one mutex-like edge per operation, not interleaved inside.
namespace sim_detail {
struct Op
{
    void* a;
    explicit Op(const void* p) : a(const_cast<void*>(p))
    {
        sim_mutex_lock(a);
        sim_ignore_begin();
    }
    ~Op()
    {
        sim_ignore_end();
        sim_mutex_unlock(a);
    }
    Op(const Op&) = delete;
    Op& operator=(const Op&) = delete;
};
} // namespace sim_detail

template<typename T, typename A = std::allocator<T>> class concurrent_vector
{
public:
    using value_type = T;
    using reference = T&;
    using const_reference = const T&;
    using size_type = std::size_t;
    using iterator = typename std::deque<T>::iterator;
    using const_iterator = typename std::deque<T>::const_iterator;
    concurrent_vector() = default;
    explicit concurrent_vector(size_type n) : m_d(n) {}
    concurrent_vector(size_type n, const T& v) : m_d(n, v) {}
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> concurrent_vector(I a, I b) : m_d(a, b) {}
    iterator push_back(const T& v)
    {
        sim_detail::Op op(this);
        m_d.push_back(v);
        return m_d.end() - 1;
    }
    iterator push_back(T&& v)
    {
        sim_detail::Op op(this);
        m_d.push_back(std::move(v));
        return m_d.end() - 1;
    }
    template<typename... X> iterator emplace_back(X&&... x)
    {
        sim_detail::Op op(this);
        m_d.emplace_back(std::forward<X>(x)...);
        return m_d.end() - 1;
    }
    iterator grow_by(size_type n)
    {
        sim_detail::Op op(this);
        size_type s = m_d.size();
        m_d.resize(s + n);
        return m_d.begin() + s;
    }
    iterator grow_by(size_type n, const T& v)
    {
        sim_detail::Op op(this);
        size_type s = m_d.size();
        m_d.resize(s + n, v);
        return m_d.begin() + s;
    }
    iterator grow_to_at_least(size_type n)
    {
        sim_detail::Op op(this);
        if (m_d.size() < n) m_d.resize(n);
        return m_d.begin();
    }
    void reserve(size_type) {}
    void resize(size_type n) { m_d.resize(n); }
    void clear() { m_d.clear(); }
    size_type size() const
    {
        Ignore ig;
        return m_d.size();
    }
    bool empty() const { return size() == 0; }
    T& operator[](size_type i)
    {
        Ignore ig;
        return m_d[i];
    }
    const T& operator[](size_type i) const
    {
        Ignore ig;
        return m_d[i];
    }
    T& at(size_type i)
    {
        Ignore ig;
        return m_d.at(i);
    }
    T& front() { return m_d.front(); }
    T& back() { return m_d.back(); }
    iterator begin() { return m_d.begin(); }
    iterator end() { return m_d.end(); }
    const_iterator begin() const { return m_d.begin(); }
    const_iterator end() const { return m_d.end(); }
    const_iterator cbegin() const { return m_d.begin(); }
    const_iterator cend() const { return m_d.end(); }

private:
    std::deque<T> m_d;
};

template<typename Key> struct tbb_hash_compare
{
    std::size_t hash(const Key& k) const { return std::hash<Key>()(k); }
    bool equal(const Key& a, const Key& b) const { return a == b; }
};

template<typename Key, typename T, typename HC = tbb_hash_compare<Key>, typename A = std::allocator<std::pair<const Key, T>>>
class concurrent_hash_map
{
    struct H
    {
        size_t operator()(const Key& k) const { return HC().hash(k); }
    };
    struct E
    {
        bool operator()(const Key& a, const Key& b) const { return HC().equal(a, b); }
    };
    using map_t = std::unordered_map<Key, T, H, E>;

public:
    using key_type = Key;
    using mapped_type = T;
    using value_type = std::pair<const Key, T>;
    using size_type = std::size_t;
    using iterator = typename map_t::iterator;
    using const_iterator = typename map_t::const_iterator;

    // An accessor holds the element's lock until released.
    class const_accessor
    {
    public:
        const_accessor() = default;
        const_accessor(const const_accessor&) = delete;
        const_accessor& operator=(const const_accessor&) = delete;
        ~const_accessor() { release(); }
        bool empty() const { return m_p == nullptr; }
        void release()
        {
            if (m_p)
            {
                sim_mutex_unlock(m_p);
                m_p = nullptr;
            }
        }
        const value_type& operator*() const { return *m_p; }
        const value_type* operator->() const { return m_p; }

    protected:
        friend class concurrent_hash_map;
        value_type* m_p = nullptr;
    };
    class accessor : public const_accessor
    {
    public:
        value_type& operator*() const { return *this->m_p; }
        value_type* operator->() const { return this->m_p; }
    };

    concurrent_hash_map() = default;
    concurrent_hash_map(const concurrent_hash_map& o) : m_m(o.m_m) {}
    concurrent_hash_map(concurrent_hash_map&& o) : m_m(std::move(o.m_m)) {}
    concurrent_hash_map& operator=(const concurrent_hash_map& o) { m_m = o.m_m; return *this; }
    concurrent_hash_map& operator=(concurrent_hash_map&& o) { m_m = std::move(o.m_m); return *this; }
    bool find(const_accessor& a, const Key& k) const { return const_cast<concurrent_hash_map*>(this)->find_(a, k); }
    bool find(accessor& a, const Key& k) { return find_(a, k); }
    size_type count(const Key& k) const
    {
        sim_detail::Op op(this);
        return m_m.count(k);
    }
    bool insert(accessor& a, const Key& k) { return insert_(a, value_type(k, T())); }
    bool insert(const_accessor& a, const Key& k) { return insert_(a, value_type(k, T())); }
    bool insert(accessor& a, const value_type& v) { return insert_(a, v); }
    bool insert(const_accessor& a, const value_type& v) { return insert_(a, v); }
    bool insert(const value_type& v)
    {
        sim_tbb_alloc_point();
        sim_detail::Op op(this);
        return m_m.insert(v).second;
    }
    template<typename... X> bool emplace(X&&... x)
    {
        sim_tbb_alloc_point();
        sim_detail::Op op(this);
        return m_m.emplace(std::forward<X>(x)...).second;
    }
    bool erase(const Key& k)
    {
        sim_detail::Op op(this);
        return m_m.erase(k) != 0;
    }
    void clear() { m_m.clear(); }
    size_type size() const
    {
        Ignore ig;
        return m_m.size();
    }
    bool empty() const { return size() == 0; }
    iterator begin() { return m_m.begin(); }
    iterator end() { return m_m.end(); }
    const_iterator begin() const { return m_m.begin(); }
    const_iterator end() const { return m_m.end(); }

private:
    bool find_(const_accessor& a, const Key& k)
    {
        a.release();
        value_type* p = nullptr;
        {
            sim_detail::Op op(this);
            auto it = m_m.find(k);
            if (it == m_m.end())
                return false;
            p = &*it;
        }
        sim_mutex_lock(p);
        a.m_p = p;
        return true;
    }
    bool insert_(const_accessor& a, const value_type& v)
    {
        a.release();
        value_type* p = nullptr;
        bool fresh;
        sim_tbb_alloc_point();
        {
            sim_detail::Op op(this);
            auto r = m_m.insert(v);
            p = &*r.first;
            fresh = r.second;
            // A fresh element is locked before anyone else can see it.
            if (fresh)
                sim_mutex_lock(p);
        }
        if (!fresh)
            sim_mutex_lock(p);
        a.m_p = p;
        return fresh;
    }
    map_t m_m;
};

namespace sim_detail {
template<typename Base> class locked_assoc : public Base
{
public:
    using Base::Base;
    template<typename... X> auto insert(X&&... x)
    {
        Op op(this);
        return Base::insert(std::forward<X>(x)...);
    }
    template<typename... X> auto emplace(X&&... x)
    {
        Op op(this);
        return Base::emplace(std::forward<X>(x)...);
    }
    template<typename K> auto find(const K& k)
    {
        Op op(this);
        return Base::find(k);
    }
    template<typename K> auto find(const K& k) const
    {
        Op op(this);
        return Base::find(k);
    }
    template<typename K> auto count(const K& k) const
    {
        Op op(this);
        return Base::count(k);
    }
    template<typename K> decltype(auto) operator[](const K& k)
    {
        Op op(this);
        return Base::operator[](k);
    }
    template<typename K> auto contains(const K& k) const { return count(k) != 0; }
    auto unsafe_erase(typename Base::const_iterator i) { return Base::erase(i); }
};
} // namespace sim_detail
template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>>
using concurrent_unordered_map = sim_detail::locked_assoc<std::unordered_map<K, V, H, E>>;
template<typename K, typename H = std::hash<K>, typename E = std::equal_to<K>>
using concurrent_unordered_set = sim_detail::locked_assoc<std::unordered_set<K, H, E>>;
template<typename K, typename H = std::hash<K>, typename E = std::equal_to<K>>
using concurrent_unordered_multiset = sim_detail::locked_assoc<std::unordered_multiset<K, H, E>>;
template<typename K, typename V, typename C = std::less<K>> using concurrent_map = sim_detail::locked_assoc<std::map<K, V, C>>;
template<typename K, typename C = std::less<K>> using concurrent_set = sim_detail::locked_assoc<std::set<K, C>>;

template<typename T> class concurrent_queue
{
public:
    void push(const T& v)
    {
        sim_detail::Op op(this);
        m_q.push_back(v);
    }
    void push(T&& v)
    {
        sim_detail::Op op(this);
        m_q.push_back(std::move(v));
    }
    template<typename... X> void emplace(X&&... x)
    {
        sim_detail::Op op(this);
        m_q.emplace_back(std::forward<X>(x)...);
    }
    bool try_pop(T& v)
    {
        sim_detail::Op op(this);
        if (m_q.empty())
            return false;
        v = std::move(m_q.front());
        m_q.pop_front();
        return true;
    }
    bool empty() const { return m_q.empty(); }
    size_t unsafe_size() const { return m_q.size(); }
    void clear() { m_q.clear(); }
    auto unsafe_begin() { return m_q.begin(); }
    auto unsafe_end() { return m_q.end(); }

private:
    std::deque<T> m_q;
};

// ---------------------------------------------------------------- control
class global_control
{
public:
    enum parameter
    {
        max_allowed_parallelism,
        thread_stack_size,
        terminate_on_exception,
        scheduler_handle,
        parameter_max
    };
    global_control(parameter p, size_t v) : m_p(p), m_h(p == max_allowed_parallelism ? sim_gc_push(v) : nullptr) {}
    ~global_control()
    {
        if (m_h)
            sim_gc_pop(m_h);
    }
    global_control(const global_control&) = delete;
    global_control& operator=(const global_control&) = delete;
    static size_t active_value(parameter p) { return p == max_allowed_parallelism ? sim_gc_active() : 0; }

private:
    parameter m_p;
    void* m_h;
};

class task_arena
{
public:
    static constexpr int automatic = -1, not_initialized = -2;
    enum class priority { low, normal, high };
    explicit task_arena(int n = automatic, unsigned = 1) : m_n(n) {}
    void initialize() {}
    void initialize(int n, unsigned = 1) { m_n = n; }
    template<typename F> auto execute(F&& f) -> decltype(f())
    {
        struct Scope
        {
            void* h;
            ~Scope() { if (h) sim_gc_pop(h); }
        } s {m_n > 0 ? sim_gc_push((size_t) m_n) : nullptr};
        return f();
    }
    template<typename F> void enqueue(F&& f) { f(); }
    int max_concurrency() const { return m_n > 0 ? m_n : sim_max_parallelism(); }
    void terminate() {}
    bool is_active() const { return true; }

private:
    int m_n;
};
namespace this_task_arena {
inline int current_thread_index() { return sim_slot_id(); }
inline int max_concurrency() { return sim_max_parallelism(); }
template<typename F> auto isolate(F&& f) -> decltype(f()) { return f(); }
} // namespace this_task_arena
namespace info {
inline int default_concurrency() { return sim_hw_threads(); }
} // namespace info

enum task_group_status
{
    not_complete,
    complete,
    canceled
};
// Tasks are gathered and run, in simulated parallel, when waited for.
class task_group
{
public:
    template<typename F> void run(F&& f) { m_t.emplace_back(std::forward<F>(f)); }
    template<typename F> task_group_status run_and_wait(F&& f)
    {
        run(std::forward<F>(f));
        return wait();
    }
    task_group_status wait()
    {
        std::vector<std::function<void()>> t;
        t.swap(m_t);
        sim_detail::for_n(t.size(), [&](size_t i) { t[i](); });
        return complete;
    }
    void cancel() { m_t.clear(); }
    ~task_group() {}

private:
    std::vector<std::function<void()>> m_t;
};

class tick_count
{
public:
    class interval_t
    {
    public:
        double seconds() const { return 0; }
    };
    static tick_count now() { return {}; }
    interval_t operator-(const tick_count&) const { return {}; }
};
}} // namespace oneapi::tbb

#endif
