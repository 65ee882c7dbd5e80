#!/usr/bin/env python3
"""Generates random statecharts: a C++ translation unit that implements the
chart with Boost.Statechart, and the table the reference model works from."""
import random

NO_ACT = -2
PLAIN, SHALLOW, DEEP = 0, 1, 2


class State:
    def __init__(self, i, parent, region):
        self.i, self.parent, self.region = i, parent, region
        self.regions = []      # list of lists of state indices
        self.initial = []      # per region (state, kind)
        self.hist = 0
        self.has_exit = self.has_ctx = True
        self.ifc = 0
        self.reactions = []    # (type, ev, dest, dkind, act, viaBase)
        self.options = []

    @property
    def name(self):
        return 'S%d' % self.i


DEFAULTS = dict(max_states=12, max_depth=4, p_inner=0.75, p_multi=0.35, max_regions=3,
                p_hist=0.35, p_deep=0.5, p_custom=0.55, p_static=0.75, transits=24,
                p_noexit=0.2, p_simple=0.25, p_act=0.5, p_evbase=0.12, p_exh=0.5,
                p_defer=0.12, p_term=0.1, p_instate=0.15, top=2, p_histdest=0.5,
                relaxed=0, native=0, ndebug=0, translator=0, alloc=0, custom_opts=3, min_regions=2, selfctx=0)


class Chart:
    def __init__(self, name, seed, **kw):
        self.name = name
        self.p = dict(DEFAULTS)
        self.p.update(kw)
        best = None
        for k in range(30):
            self.r = random.Random('%s/%s/%d' % (name, seed, k))
            self.s = []
            self.build()
            score = self.score()
            if best is None or score > best[0]:
                best = (score, dict(self.__dict__))
            if score >= 0.95:
                break
        self.__dict__ = best[1]

    def score(self):
        """share of the states that can become active at all, less if the
        aspect the family is about is missing"""
        reach = set()
        todo = [0]

        def enter(x):
            while x >= 0 and x not in reach:
                reach.add(x)
                todo.append(x)
                x = self.s[x].parent
        enter(0)
        mid = 0
        while todo:
            st = self.s[todo.pop()]
            for d, _ in st.initial:
                enter(d)
            for (ty, *q) in [t[:1] + t[2:] for t in st.reactions] + st.options:
                if ty == 'TRANS':
                    enter(q[0])
                    x, c = q[0], self.common(st.i, q[0])
                    while self.s[x].parent != c:
                        x, rg = self.s[x].parent, self.s[x].region
                        mid += 1 < rg < len(self.s[x].regions) - 2
        p = self.p
        pseudo = sum(q[-3] != PLAIN for s in self.s for q in s.reactions + s.options) + sum(k != PLAIN for s in self.s for _, k in s.initial)
        lack = (p['min_regions'] > 2 and mid < 2) + (len(self.s) < p['max_states'] // 2) + (p['p_hist'] >= 0.6 and pseudo < 4)
        lack += p['p_multi'] >= 0.6 and sum(len(s.regions) > 1 for s in self.s) < 1 + (p['max_depth'] > 2)
        return len(reach) / len(self.s) - 0.2 * lack

    # ------------------------------------------------------------ structure
    def anc(self, x):
        """proper ancestors, innermost first"""
        o = []
        x = self.s[x].parent
        while x >= 0:
            o.append(x)
            x = self.s[x].parent
        return o

    def deep_above(self, x):
        return any(self.s[a].hist & 2 for a in [x] + self.anc(x))

    def build(self):
        p, r = self.p, self.r
        todo = []
        for _ in range(p['top']):
            st = State(len(self.s), -1, 0)
            self.s.append(st)
            todo.append((st.i, 1))
        while todo:
            k = 0 if r.random() < 0.6 else r.randrange(len(todo))
            x, depth = todo.pop(k)
            st = self.s[x]
            if depth >= p['max_depth'] or len(self.s) >= p['max_states']:
                continue
            if not (x == 0 and not st.regions) and r.random() > p['p_inner']:
                continue
            inherited = any(self.s[a].hist & 2 for a in self.anc(x))
            if r.random() < p['p_hist']:
                st.hist = r.choice([1, 2, 3]) if r.random() < p['p_deep'] else 1
            n = 1
            if not inherited and r.random() < p['p_multi']:
                n = r.randint(p['min_regions'], p['max_regions'])
            for rg in range(n):
                kids = []
                for _ in range(r.choice([1, 2, 2, 3]) if n == 1 else r.choice([1, 2, 2])):
                    c = State(len(self.s), x, rg)
                    self.s.append(c)
                    kids.append(c.i)
                    todo.append((c.i, depth + 1))
                st.regions.append(kids)
                kind = PLAIN
                if st.hist and r.random() < 0.35:
                    kind = r.choice([k for k in (SHALLOW, DEEP) if st.hist & k])
                st.initial.append((r.choice(kids), kind))
        for st in self.s:
            st.has_exit = r.random() > p['p_noexit']
            st.has_ctx = r.random() > p['p_simple']
            for k in range(4):
                if r.random() < 0.2:
                    st.ifc |= 1 << k
        self.ifc = sum(1 << k for k in range(4) if r.random() < 0.35)
        # history declared by a state that has no inner states
        self.leafhist = dict((st.i, r.choice([1, 2, 3])) for st in self.s if not st.regions and r.random() < 0.15)
        self.budget = p['transits']
        order = list(range(len(self.s)))
        r.shuffle(order)
        for x in order:
            self.react(x)

    def common(self, a, b):
        bb = set(self.anc(b))
        for x in self.anc(a):
            if x in bb:
                return x
        return -1

    def towards(self, c, x):
        while self.s[x].parent != c:
            x = self.s[x].parent
        return x

    def legal(self, src, dest):
        c = self.common(src, dest)
        return self.s[self.towards(c, src)].region == self.s[self.towards(c, dest)].region

    def dest(self, src):
        r = self.r
        pseudo = [(x, k) for x in range(len(self.s)) for k in (SHALLOW, DEEP)
                  if self.s[x].parent >= 0 and self.s[self.s[x].parent].hist & k and self.legal(src, x)]
        if pseudo and r.random() < self.p['p_histdest']:
            return r.choice(pseudo)
        return (r.choice([x for x in range(len(self.s)) if self.legal(src, x)]), PLAIN)

    def transition(self, src):
        r = self.r
        d, k = self.dest(src)
        c = self.common(src, d)
        outer = [c] + (self.anc(c) if c >= 0 else []) + ([-1] if c >= 0 else [])
        act, via = NO_ACT, 0
        if r.random() < self.p['p_act']:
            if self.p['relaxed']:
                inner = [src] + self.anc(src)
                inner = inner[:inner.index(c)] if c >= 0 else inner
                act = r.choice(inner if inner and r.random() < 0.65 else outer)
                if act in outer and r.random() < 0.2:
                    via = 1
            else:
                act = r.choice(outer)
                via = 1 if r.random() < 0.2 else 0
        return ('TRANS', d, k, act, via)

    def react(self, x):
        p, r, st = self.p, self.r, self.s[x]
        share = max(2, 2 * p['transits'] // len(self.s))
        opts = [('DISCARD', -1, 0, NO_ACT, 0), ('FORWARD', -1, 0, NO_ACT, 0), ('DEFER', -1, 0, NO_ACT, 0), ('TERM', -1, 0, NO_ACT, 0)]
        custom = False
        lst = []
        evs = [0, 1, 2, 3, 4]
        r.shuffle(evs)

        def one(ev):
            nonlocal custom, share
            q = r.random()
            if q < p['p_custom']:
                custom = True
                lst.append(('CUSTOM', ev, -1, 0, NO_ACT, 0))
                return
            q = r.random()
            if q < p['p_defer']:
                lst.append(('DEFER', ev, -1, 0, NO_ACT, 0))
            elif q < p['p_defer'] + p['p_term']:
                lst.append(('TERM', ev, -1, 0, NO_ACT, 0))
            elif q < p['p_defer'] + p['p_term'] + p['p_instate'] or self.budget <= 0 or share <= 0:
                act, via = NO_ACT, 0
                if r.random() < 0.8:
                    act = r.choice([x] + self.anc(x) + [-1])
                    via = 1 if r.random() < 0.2 else 0
                lst.append(('INSTATE', ev, -1, 0, act, via))
            else:
                self.budget -= 1
                share -= 1
                t = self.transition(x)
                lst.append(('TRANS', ev) + t[1:])

        n = sum(1 for e in evs if r.random() < p['p_static'])
        for ev in evs[:n]:
            one(ev)
        if lst and r.random() < 0.15:        # shadowed by an earlier entry
            one(r.choice(lst)[1])
        if p['translator'] and r.random() < p['p_exh']:
            ev = 5 if p['translator'] == 1 else 6
            if r.random() < 0.7:
                custom = True
                lst.append(('CUSTOM', ev, -1, 0, NO_ACT, 0))
            else:
                one(ev)
            if r.random() < 0.5:
                lst.insert(0, lst.pop())
        if r.random() < p['p_evbase']:
            one(-1)
        if custom:
            for _ in range(min(r.randint(1, p['custom_opts']), max(0, self.budget), max(1, share))):
                self.budget -= 1
                t = self.transition(x)
                if t not in opts:
                    opts.append(t)
        st.reactions = lst
        st.options = opts if custom else []

    # ----------------------------------------------------------------- output
    def cname(self, x):
        return 'M' if x == -1 else self.s[x].name

    def hist_slots(self):
        o = []
        for st in self.s:
            for rg in range(len(st.regions)):
                for k in (SHALLOW, DEEP):
                    if st.hist & k:
                        o.append((st.i, rg, k))
        return o

    def dtype(self, d, k):
        n = self.s[d].name
        return n if k == PLAIN else ('sc::shallow_history< %s >' if k == SHALLOW else 'sc::deep_history< %s >') % n

    def evtype(self, ev):
        return ['rt::E0', 'rt::E1', 'rt::E2', 'rt::E3', 'rt::E4', 'rt::EX', 'rt::EY', 'sc::event_base'][ev]

    def actptr(self, act, via, ev, inside=None):
        t = self.cname(act)
        if via:
            return '&ActBase< %s >::bact< %s >' % (t, self.evtype(ev)), 'ActBase< %s >' % t
        return '&%s::act< %s >' % (t, self.evtype(ev)), t

    def cpp(self):
        p = self.p
        o = []
        w = o.append
        w('// generated by chartgen.py, do not edit')
        w('#include "alloc.hpp"\n#include "rt.hpp"')
        for h in ('state_machine', 'state', 'simple_state', 'custom_reaction', 'transition', 'termination', 'deferral',
                  'in_state_reaction', 'shallow_history', 'deep_history', 'exception_translator', 'null_exception_translator', 'result'):
            w('#include <boost/statechart/%s.hpp>' % h)
        w('#include <boost/mpl/list.hpp>\n#include <memory>\n#include <typeinfo>')
        w('namespace chart_%s {\nnamespace sc = boost::statechart; namespace mpl = boost::mpl;' % self.name)
        w('struct M;')
        for st in self.s:
            w('struct %s;' % st.name)
        for k in range(4):
            w('struct I%d { virtual ~I%d() {} int pad%d[ %d ]; I%d() { pad%d[ 0 ] = %d; } };' % (k, k, k, k + 1, k, k, k))
        w('struct Lead { virtual ~Lead() {} int lead; Lead() : lead( 7 ) {} };')
        w('template< class D > struct ActBase { template< class E > void bact( const E & e ) { static_cast< D * >( this )->act( e ); } };')
        w('''template< class S > struct PosterT : rt::Poster
{
  S & s; explicit PosterT( S & x ) : s( x ) {}
  void post( const rt::EvPtr & p ) { s.post_event( p ); }
  void postRef( const sc::event_base & e ) { s.post_event( e ); }
  void clearHist( int k ) { s.clear_( k ); }
  const void * ctx( int k, int v ) { return s.ctx_( k, v ); }
  void query() { s.query_(); }
  const sc::event_base * trig() { return s.triggering_event(); }
};''')
        tr = 'sc::null_exception_translator'
        if p['translator'] == 1:
            tr = 'sc::exception_translator< rt::EX >'
        elif p['translator'] == 2:
            w('''struct SelTrans
{
  template< class Action, class Handler > sc::result operator()( Action action, Handler h )
  { try { return action(); } catch ( const rt::ExcA & x ) { return h( rt::EY( x.id ) ); } }
};''')
            tr = 'SelTrans'
        al = 'rt::TrackAlloc< sc::none >' if p['alloc'] else 'std::allocator< sc::none >'
        w('''typedef sc::state_machine< M, %s, %s, %s > machine_base;
struct M : rt::IMachine, machine_base, ActBase< M >%s
{
  PosterT< M > poster_;
  unsigned turn_;
  M() : poster_( *this ), turn_( 0 ) { mid = 0; alive = true; }
  ~M() { alive = false; }
  void initiate_() { initiate(); }
  void terminate_() { terminate(); }
  void process_( const sc::event_base & e ) { process_event( e ); }
  using machine_base::post_event;
  rt::Poster & poster() { return poster_; }
  bool terminated_() const { return terminated(); }
  void query();
  void clear_( int k );
  const void * ctx_( int, int ) { return 0; }
  void query_() { query(); }
  template< class E > void act( const E & e ) { rt::act( -1, rt::dynAddr( this ), e, &poster_ ); }
  void unconsumed_event( const sc::event_base & e ) { rt::unconsumed( e, &poster_ ); }
};''' % (self.s[0].name, al, tr, ''.join(', I%d' % k for k in range(4) if self.ifc >> k & 1)))
        hn = ['has_no_history', 'has_shallow_history', 'has_deep_history', 'has_full_history']
        for st in self.s:
            ctx = self.cname(st.parent)
            if st.region:
                ctx += '::orthogonal< %d >' % st.region
            base = 'sc::%s< %s, %s' % ('state' if st.has_ctx else 'simple_state', st.name, ctx)
            if st.regions:
                ini = [self.dtype(d, k) for d, k in st.initial]
                base += ', ' + (ini[0] if len(ini) == 1 and '<' not in ini[0] and st.i % 2 else 'mpl::list< %s >' % ', '.join(ini))
            elif st.i in self.leafhist:
                base += ', mpl::list<>, sc::' + hn[self.leafhist[st.i]]
            if st.hist and st.regions:
                base += ', sc::' + hn[st.hist]
            base += ' >'
            ifs = ['I%d' % k for k in range(4) if st.ifc >> k & 1]
            # the library's base is not always at the start of the object
            first = (st.i + len(self.s)) % 4 == 1
            w('struct %s : %s' % (st.name, ', '.join(((ifs or ['Lead']) + [base] if first else [base] + ifs) + ['ActBase< %s >' % st.name])))
            w('{')
            w('  template< class E > void act( const E & e ) { PosterT< %s > p( *this ); rt::act( %d, rt::dynAddr( this ), e, &p ); }' % (st.name, st.i))
            rl = []
            for (ty, ev, d, k, act, via) in st.reactions:
                e = self.evtype(ev)
                if ty == 'CUSTOM':
                    rl.append('sc::custom_reaction< %s >' % e)
                elif ty == 'DEFER':
                    rl.append('sc::deferral< %s >' % e)
                elif ty == 'TERM':
                    rl.append('sc::termination< %s >' % e)
                elif ty == 'INSTATE':
                    if act == NO_ACT:
                        rl.append('sc::in_state_reaction< %s >' % e)
                    else:
                        f, c = self.actptr(act, via, ev)
                        rl.append('sc::in_state_reaction< %s, %s, %s >' % (e, c, f))
                else:
                    if act == NO_ACT:
                        rl.append('sc::transition< %s, %s >' % (e, self.dtype(d, k)))
                    else:
                        f, c = self.actptr(act, via, ev)
                        rl.append('sc::transition< %s, %s, %s, %s >' % (e, self.dtype(d, k), c, f))
            if rl:
                if len(rl) == 1 and st.i % 2:
                    w('  typedef %s reactions;' % rl[0])
                else:
                    w('  typedef mpl::list<\n    %s > reactions;' % ',\n    '.join(rl))
            if st.has_ctx:
                w('  %s( my_context c ) : my_base( c ) { PosterT< %s > p( *this ); rt::enter( %d, rt::dynAddr( this ), &p ); }' % (st.name, st.name, st.i))
            else:
                w('  %s() { rt::enter( %d, rt::dynAddr( this ), 0 ); }' % (st.name, st.i))
            w('  ~%s() { PosterT< %s > p( *this ); rt::dtor( %d, rt::dynAddr( this ), &p ); }' % (st.name, st.name, st.i))
            if st.has_exit:
                w('  void exit() { PosterT< %s > p( *this ); rt::exit_( %d, rt::dynAddr( this ), &p ); }' % (st.name, st.i))
            w('  void clear_( int k );\n  const void * ctx_( int k, int v );\n  void query_();')
            if st.options:
                w('  sc::result react( const sc::event_base & e );')
            w('};')
        slots = self.hist_slots()

        def clear_body(owner):
            w('void %s::clear_( int k )\n{\n  ( void )k;\n  switch ( k )\n  {' % owner)
            for i, (x, rg, k) in enumerate(slots):
                w('  case %d: clear_%s_history< %s, %d >(); break;' % (i, 'shallow' if k == SHALLOW else 'deep', self.s[x].name, rg))
            w('  default: break;\n  }\n}')
        clear_body('M')
        for st in self.s:
            clear_body(st.name)
            w('const void * %s::ctx_( int k, int v )\n{\n  const %s & c = *this;\n  switch ( k * 4 + v )\n  {' % (st.name, st.name))
            chain = [st.i] + self.anc(st.i)
            for i, a in enumerate(chain):
                t = self.s[a].name
                w('  case %d: return rt::dynAddr( &context< %s >() );' % (i * 4, t))
                if i == 0 and not p['selfctx']:
                    w('  case 1: case 2: return rt::dynAddr( &c );')
                    continue
                w('  case %d: return rt::dynAddr( &c.context< %s >() );' % (i * 4 + 1, t))
                w('  case %d: return rt::dynAddr( static_cast< const %s * >( &c.context< ActBase< %s > >() ) );' % (i * 4 + 2, t, t))
            i = len(chain)
            w('  case %d: return rt::dynAddr( &context< M >() );' % (i * 4))
            w('  case %d: return rt::dynAddr( &c.context< M >() );' % (i * 4 + 1))
            w('  case %d: return rt::dynAddr( &outermost_context() );' % (i * 4 + 2))
            w('  case %d: return rt::dynAddr( &c.outermost_context() );' % (i * 4 + 3))
            for k in range(4):
                if (self.ifc >> k & 1) or any(self.s[a].ifc >> k & 1 for a in chain):
                    w('  case %d: return rt::dynAddr( &context< I%d >() );' % ((i + 1 + k) * 4, k))
                    w('  case %d: return rt::dynAddr( &%scontext< I%d >() );' % (
                        (i + 1 + k) * 4 + 1, '' if st.ifc >> k & 1 and not p['selfctx'] else 'c.', k))
            w('  default: return 0;\n  }\n}')
            if st.options:
                w('sc::result %s::react( const sc::event_base & e )\n{\n  PosterT< %s > p( *this );\n  switch ( rt::react( %d, rt::dynAddr( this ), e, &p ) )\n  {' % (st.name, st.name, st.i))
                for i, (ty, d, k, act, via) in enumerate(st.options):
                    if ty == 'DISCARD':
                        b = 'discard_event()'
                    elif ty == 'FORWARD':
                        b = 'forward_event()'
                    elif ty == 'DEFER':
                        b = 'defer_event()'
                    elif ty == 'TERM':
                        b = 'terminate()'
                    elif act == NO_ACT:
                        b = 'transit< %s >()' % self.dtype(d, k)
                    else:
                        f, c = self.actptr(act, via, -1)
                        b = 'transit< %s >( %s, e )' % (self.dtype(d, k), f)
                    w('  case %d: return %s;' % (i, b))
                w('  default: return discard_event();\n  }\n}')
        w('''static int idx( const M::state_base_type & s )
{''')
        for st in self.s:
            w('  if ( s.dynamic_type() == %s::static_type() ) return %d;' % (st.name, st.i))
        w('  return -1;\n}')
        w('''template< class S, class O > void down( const O & m, int i, bool ref )
{
  using namespace trace;
  rt::rec( K_QDOWN, i, 0, rt::dynAddr( m.template state_downcast< const S * >() ) );
  rt::rec( K_QCAST, i, 0, rt::dynAddr( m.template state_cast< const S * >() ) );
  if ( !ref ) return;
  const void * p = 0;
  try { p = rt::dynAddr( &m.template state_downcast< const S & >() ); } catch ( const std::bad_cast & ) {}
  rt::rec( K_QDOWN, i, 1, p );
  p = 0;
  try { p = rt::dynAddr( &m.template state_cast< const S & >() ); } catch ( const std::bad_cast & ) {}
  rt::rec( K_QCAST, i, 1, p );
}
template< class I, class O > void ifc( const O & m, int i )
{
  rt::rec( trace::K_QIFC, i, 0, rt::dynAddr( m.template state_cast< const I * >() ) );
  const void * p = 0;
  try { p = rt::dynAddr( &m.template state_cast< const I & >() ); } catch ( const std::bad_cast & ) {}
  rt::rec( trace::K_QIFC, i, 1, p );
}
template< class O > void leaves( const O & o, bool terminated, unsigned turn )
{
  using namespace trace;
  rt::rec( K_QBEGIN, terminated, o.state_begin() == o.state_end() );
  typename O::state_iterator i = o.state_begin();
  while ( turn % 2 ? !( i == o.state_end() ) : i != o.state_end() )
  {
    int depth = 0;
    typename O::state_iterator copy( i );
    const M::state_base_type * p = 0;
    switch ( turn % 3 )
    {
    case 0: p = &*i; ++i; break;
    case 1: p = &*i++; break;
    default: copy = ++i; { typename O::state_iterator again = o.state_begin(); while ( again != copy ) p = again++.operator->(); } break;
    }
    for ( ; p; p = p->outer_state_ptr() ) rt::rec( K_QLEAF, idx( *p ), depth++, rt::dynAddr( p ) );
  }
}
void M::query()
{
  unsigned turn = turn_++;
  leaves( *this, terminated(), turn );''')
        for st in self.s:
            w('  down< %s >( *this, %d, turn %% 8 == %d );' % (st.name, st.i, st.i % 8))
        for k in range(4):
            w('  ifc< I%d >( *this, %d );' % (k, k))
        w('  rt::rec( trace::K_QEND, 0 );\n}')
        # the same questions asked through a state
        for st in self.s:
            w('void %s::query_()\n{\n  M & m = outermost_context();\n  unsigned turn = m.turn_++;\n  leaves( *this, m.terminated(), turn );' % st.name)
            for k in sorted({st.i, (st.i * 5 + 3) % len(self.s), st.parent if st.parent >= 0 else 0}):
                w('  down< %s >( *this, %d, turn %% 3 == 0 );' % (self.s[k].name, k))
            w('  ifc< I%d >( *this, %d );\n  rt::rec( trace::K_QEND, 0 );\n}' % (st.i % 4, st.i % 4))
        # tables
        T = {'CUSTOM': 0, 'TRANS': 1, 'INSTATE': 2, 'TERM': 3, 'DEFER': 4, 'DISCARD': 5, 'FORWARD': 6}
        for st in self.s:
            if st.reactions:
                w('static const desc::Reaction r%d[] = { %s };' % (st.i, ', '.join('{ %d, %d, %d, %d, %d, %d }' % ((T[t],) + tuple(rest)) for (t, *rest) in st.reactions)))
            if st.options:
                w('static const desc::Reaction o%d[] = { %s };' % (st.i, ', '.join('{ %d, -1, %d, %d, %d, %d }' % ((T[t],) + tuple(rest)) for (t, *rest) in st.options)))
        w('static const desc::State states[] = {')
        for st in self.s:
            ini = ', '.join('{ %d, %d }' % x for x in st.initial) or '{ 0, 0 }'
            w('  { "%s", %d, %d, %d, { %s }, %d, %d, %d, %d, %d, %s, %d, %s },' % (
                st.name, st.parent, st.region, len(st.regions), ini, st.hist if st.regions else 0, st.has_exit, st.has_ctx, st.ifc,
                len(st.reactions), 'r%d' % st.i if st.reactions else '0', len(st.options), 'o%d' % st.i if st.options else '0'))
        w('};')
        if slots:
            w('static const desc::HistSlot slots[] = { %s };' % ', '.join('{ %d, %d, %d }' % s for s in slots))
        w('static const desc::Chart chart = { "%s", %d, states, 0, %d, %s, %d, %d, %d, %d, %d, %d };' % (
            self.name, len(self.s), len(slots), 'slots' if slots else '0', p['relaxed'], p['native'], p['ndebug'], p['translator'], p['alloc'], self.ifc))
        w('static rt::IMachine * make() { return new M; }')
        w('static rt::Reg reg( &chart, &make );\n}')
        return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import sys
    name, seed = sys.argv[1], sys.argv[2]
    kw = dict((a.split('=')[0], float(a.split('=')[1]) if '.' in a else int(a.split('=')[1])) for a in sys.argv[3:])
    sys.stdout.write(Chart(name, seed, **kw).cpp())
