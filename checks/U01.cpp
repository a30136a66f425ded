// U01: the intrusive list is a sequence of its linked elements.
#include <deque>
#include <memory>
#include <optional>

#include "util/util_intrusive_list.hpp"
#include "pbt.hpp"

using namespace freewebrtc;

PBT_RULE("histories of pushes, pops, unlinking, element moves, assignments and destructions, list moves, clears and destructions "
         "over several lists and up to 12 elements that can be in two independent kinds of list at once are run on "
         "the lists and on std::deque models, compared after every step; non-trivial: at least two elements were "
         "linked at the same time and one of them was unlinked by other means than a pop");

namespace {

struct Elem {
    using List = util::IntrusiveList<Elem>;
    explicit Elem(int i) : id(i), a(*this), b(*this) {}
    Elem(Elem&& o) : id(o.id), a(*this, std::move(o.a)), b(*this, std::move(o.b)) {}
    Elem& operator=(Elem&&) = default; // the id goes along with the places
    int id;
    List::Link a;
    List::Link b;
};

using List = Elem::List;
using Model = std::deque<int>;

struct World {
    std::vector<std::unique_ptr<List>> lists;
    std::vector<Model> models;
    std::vector<bool> kinds; // true: linked by b
    std::vector<std::unique_ptr<Elem>> elems;
    static constexpr size_t per_kind = 3;

    World() {
        for (size_t i = 0; i < 2 * per_kind; ++i) {
            kinds.push_back(i >= per_kind);
            lists.push_back(std::make_unique<List>(link(i)));
            models.emplace_back();
        }
    }
    List::Link Elem::* link(size_t list) const { return kinds[list] ? &Elem::b : &Elem::a; }
    // Where the element is, in the kind of the list.
    std::optional<size_t> where(int id, bool kind_b) const {
        for (size_t l = 0; l < lists.size(); ++l) {
            for (int x : models[l]) {
                if (x == id && kinds[l] == kind_b) {
                    return l;
                }
            }
        }
        return std::nullopt;
    }
    void model_remove(int id, bool kind_b) {
        if (auto l = where(id, kind_b)) {
            auto& m = models[*l];
            m.erase(std::find(m.begin(), m.end(), id));
        }
    }
    void audit() {
        for (size_t l = 0; l < lists.size(); ++l) {
            auto& list = *lists[l];
            const auto& clist = list;
            const auto& m = models[l];
            REQUIRE_EQ(list.empty(), m.empty(), "emptiness of list ", l);
            const auto f = list.front();
            const auto bk = list.back();
            const auto cf = clist.front();
            const auto cb = clist.back();
            REQUIRE_EQ(f.is_some(), !m.empty(), "front of list ", l);
            REQUIRE_EQ(bk.is_some(), !m.empty(), "back of list ", l);
            REQUIRE_EQ(cf.is_some(), !m.empty(), "const front of list ", l);
            REQUIRE_EQ(cb.is_some(), !m.empty(), "const back of list ", l);
            if (!m.empty()) {
                REQUIRE_EQ(f.unwrap().get().id, m.front(), "front of list ", l);
                REQUIRE_EQ(bk.unwrap().get().id, m.back(), "back of list ", l);
                REQUIRE_EQ(cf.unwrap().get().id, m.front(), "const front of list ", l);
                REQUIRE_EQ(cb.unwrap().get().id, m.back(), "const back of list ", l);
                REQUIRE(&f.unwrap().get() == elem(m.front()), "front is not the element itself");
                REQUIRE(&bk.unwrap().get() == elem(m.back()), "back is not the element itself");
            }
        }
        for (const auto& e : elems) {
            if (e) {
                REQUIRE_EQ(e->a.in_list(), where(e->id, false).has_value(), "in_list of element ", e->id);
                REQUIRE_EQ(e->b.in_list(), where(e->id, true).has_value(), "in_list of element ", e->id);
                REQUIRE(&e->a.get() == e.get() && &e->b.get() == e.get(), "owner of a link");
            }
        }
    }
    Elem* elem(int id) {
        for (auto& e : elems) {
            if (e && e->id == id) {
                return e.get();
            }
        }
        pbt::fail("unknown element ", id);
    }
    // Reads the whole list by draining it one way and refilling it.
    void traverse(size_t l, bool from_back) {
        auto& list = *lists[l];
        std::deque<int> seen;
        while (!list.empty()) {
            REQUIRE(seen.size() < models[l].size(), "list ", l, " has more elements than were linked");
            if (from_back) {
                seen.push_front(list.back().unwrap().get().id);
                list.pop_back();
            } else {
                seen.push_back(list.front().unwrap().get().id);
                list.pop_front();
            }
        }
        REQUIRE(seen == models[l], "order of list ", l, from_back ? " from back" : " from front");
        for (int id : seen) {
            Elem* e = elem(id);
            REQUIRE(!(e->*link(l)).in_list(), "in list after pop");
            if (from_back) {
                list.push_back(*e);
            } else {
                list.push_back(*e);
            }
        }
    }
};

}

namespace {

void history_of(pbt::Src& s, size_t n, size_t most) {
    World w;
    int next = 0;
    bool shared = false, unlinked = false;
    for (size_t i = 0; i < n; ++i) {
        const size_t l = s.below(w.lists.size());
        const bool kb = w.kinds[l];
        auto& list = *w.lists[l];
        auto& model = w.models[l];
        const size_t op = s.weighted({4, 6, 6, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2, 1});
        auto some = [&]() -> Elem* {
            std::vector<Elem*> alive;
            for (auto& e : w.elems) {
                if (e) {
                    alive.push_back(e.get());
                }
            }
            return alive.empty() ? nullptr : s.pick(alive);
        };
        switch (op) {
        case 0:
            for (size_t k = most > 12 ? s.big(most / 4) : 1; k > 0 && w.elems.size() < most; --k) {
                w.elems.push_back(std::make_unique<Elem>(next++));
                s.note("create ", next - 1);
            }
            break;
        case 1: case 2:
            if (auto e = some()) {
                s.note(op == 1 ? "push_back " : "push_front ", e->id, " to ", l);
                unlinked = unlinked || w.where(e->id, kb).has_value();
                w.model_remove(e->id, kb);
                if (op == 1) {
                    list.push_back(*e);
                    model.push_back(e->id);
                } else {
                    list.push_front(*e);
                    model.push_front(e->id);
                }
            }
            break;
        case 3:
            if (!model.empty()) {
                s.note("pop_front ", l);
                list.pop_front();
                model.pop_front();
            }
            break;
        case 4:
            if (!model.empty()) {
                s.note("pop_back ", l);
                list.pop_back();
                model.pop_back();
            }
            break;
        case 5: case 6:
            if (auto e = some()) {
                s.note("unlink ", e->id, op == 5 ? " a" : " b");
                unlinked = unlinked || w.where(e->id, op == 6).has_value();
                (op == 5 ? e->a : e->b).remove();
                w.model_remove(e->id, op == 6);
            }
            break;
        case 7: // destroy an element, linked or not
            if (auto e = some()) {
                s.note("destroy ", e->id);
                unlinked = unlinked || w.where(e->id, false) || w.where(e->id, true);
                w.model_remove(e->id, false);
                w.model_remove(e->id, true);
                for (auto it = w.elems.begin(); it != w.elems.end(); ++it) {
                    if (it->get() == e) {
                        w.elems.erase(it);
                        break;
                    }
                }
            }
            break;
        case 8: // move an element to another address
            if (auto e = some()) {
                s.note("relocate ", e->id);
                auto moved = std::make_unique<Elem>(std::move(*e));
                REQUIRE(!e->a.in_list() && !e->b.in_list(), "a moved-from element is still linked");
                for (auto& x : w.elems) {
                    if (x.get() == e) {
                        x = std::move(moved);
                        break;
                    }
                }
            }
            break;
        case 9: { // move-assign, also to itself
            const size_t o = s.below(w.lists.size()); // perhaps of the other link
            s.note("list ", l, " = move(list ", o, ")");
            auto& from = *w.lists[o];
            list = std::move(from);
            if (o != l) {
                unlinked = unlinked || !model.empty();
                model = std::move(w.models[o]);
                w.models[o].clear();
                w.kinds[l] = w.kinds[o];
            }
            break;
        }
        case 10: { // move-construct
            s.note("move-construct list ", l);
            auto moved = std::make_unique<List>(std::move(list));
            REQUIRE(list.empty(), "a moved-from list is not empty");
            if (s.flip()) {
                // the moved-from list stays usable
                Elem tmp(-1);
                list.push_back(tmp);
                REQUIRE(!list.empty() && &list.front().unwrap().get() == &tmp, "push to a moved-from list");
            }
            w.lists[l] = std::move(moved);
            break;
        }
        case 11:
            s.note("clear ", l);
            unlinked = unlinked || !model.empty();
            list.clear();
            model.clear();
            break;
        case 12:
            s.note("traverse ", l);
            w.traverse(l, s.flip());
            break;
        case 13: // move-assign an element: the target takes its places
            if (auto e = some()) {
                Elem* t = some();
                s.note("element ", t->id, " = move(element ", e->id, ")");
                if (t == e) {
                    *t = std::move(*e);
                    break;
                }
                unlinked = unlinked || w.where(t->id, false) || w.where(t->id, true);
                w.model_remove(t->id, false);
                w.model_remove(t->id, true);
                *t = std::move(*e);
                REQUIRE(!e->a.in_list() && !e->b.in_list(), "a moved-from element is still linked");
                e->id = next++; // linked nowhere
            }
            break;
        default: // destroy the list: its elements are unlinked
            s.note("destroy list ", l);
            unlinked = unlinked || !model.empty();
            w.kinds[l] = s.flip();
            w.lists[l] = std::make_unique<List>(w.link(l));
            model.clear();
            break;
        }
        for (const auto& m : w.models) {
            shared = shared || m.size() >= 2;
        }
        w.audit();
    }
    for (size_t l = 0; l < w.lists.size(); ++l) {
        w.traverse(l, s.flip());
        if (w.models[l].size() >= 3) {
            s.label("list of three or more at the end");
        }
    }
    w.audit();
    // Elements may go before or after their lists.
    if (s.flip()) {
        w.elems.clear();
        for (auto& l : w.lists) {
            REQUIRE(l->empty(), "a list is not empty after its elements are gone");
        }
    } else {
        w.lists.clear();
        for (auto& e : w.elems) {
            REQUIRE(!e->a.in_list() && !e->b.in_list(), "linked to a destroyed list");
        }
    }
    if (shared && unlinked) {
        s.nontrivial();
    }
}

}

PBT_TEST(history, 60000, 2000000) {
    history_of(s, 1 + s.len(60), 12);
}

// Lists of many elements.
PBT_TEST(long_history, 150, 4000) {
    history_of(s, 150 + s.below(250), 20 + s.below(150));
}

