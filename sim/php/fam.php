<?php
/* Family base: op tables, construction, iterators, copies, serialization, shared by all collection classes. */

abstract class Fam {
    use FnOps, SerOps, CycOps;
    public Sim $s; private array $tab = [];
    public function __construct(Sim $s) { $this->s = $s; }
    const OFF = ['dur' => 0, 'cyc' => 0];
    /** op => [weight, tag] */
    abstract public function ops(string $cls): array;
    abstract public function verify(Coll $c): void;
    /** model from a list of [key, value] model pairs as a constructor would build it (null: rejects => exception class in $err) */
    abstract public function build(string $cls, array $pairs, Model $m): ?string;
    public function stateKey(Coll $c): string { return count($c->m->V) . '|' . implode(',', array_map(fn($i) => $i->st, $c->m->iters)) . '|' . hash('xxh64', implode(',', array_map('ifp', $c->m->V)) . '/' . implode(',', array_map('ifp', $c->m->K))); }
    public function immutable(string $cls): bool { return str_starts_with($cls, 'Teds\Immutable'); }
    /** kinds of values that suit the class (elements), for IntVector etc. */
    public function kinds(string $cls): ?array { return null; }
    public function key(Coll $c, int $r): mixed { return $this->s->val($r, $this->s->cfg['keys'] ?? null); }
    public function elem(string $cls, int $r): mixed { return $this->s->val($r, $this->kinds($cls)); }
    public function isKeyed(): bool { return false; }

    public function pick(string $cls, int $sel): string {
        if (!isset($this->tab[$cls])) {
            $t = []; $w = $this->s->cfg['w'] ?? [];
            foreach ($this->ops($cls) as $op => [$wt, $tag]) {
                if ($op === 'new' && $this->immutable($cls)) $wt *= 3;
                $n = (int)round($wt * 10 * ($w["op:$op"] ?? 1) * ($w[$tag] ?? (self::OFF[$tag] ?? 1)) * ($w['*'] ?? 1));
                for ($i = 0; $i < $n; $i++) $t[] = $op;
            }
            $this->tab[$cls] = $t ?: ['count'];
        }
        $t = $this->tab[$cls];
        return $t[$sel % count($t)];
    }
    /** does this operation change the collection itself? */
    public function changes(string $cls, string $op): bool { return in_array($this->ops($cls)[$op][1] ?? '', ['mut', 'grow', 'clear'], true); }
    /** start from constructed contents */
    public function seedWith(Coll $c, array $a): void { $x = new Ctx; $x->c = $c; $x->name = "#{$c->sid}:" . substr($c->cls, 5) . '::init'; $this->op_new($c, $a, $x); }
    public function run(string $op, Coll $c, array $a, Ctx $x): void {
        if (!empty($c->m->x['raw']) && in_array($op, ['reconstruct', 'reunser', 'immut', 'kimmut', 'simmut'], true)) $op = 'rawfill';
        $m = "op_$op";
        $this->$m($c, $a, $x);
    }
    /** ops every collection has */
    protected function common(string $cls): array {
        return [
            'count' => [1, 'read'], 'values' => [1, 'read'], 'jsonser' => [0.5, 'read'], 'cast' => [0.5, 'read'], 'dump' => [0.5, 'read'],
            'it_new' => [1.2, 'iter'], 'it_next' => [4, 'iter'], 'it_read' => [1.5, 'iter'], 'it_rewind' => [0.5, 'iter'], 'it_drop' => [0.5, 'iter'], 'it_full' => [0.6, 'iter'], 'it_orphan' => [0.3, 'iter'],
            'foreach' => [0.7, 'read'], 'byref' => [0.12, 'read'], 'new' => [0.4, 'new'], 'newfrom' => [0.4, 'new'], 'clone' => [0.5, 'clone'], 'reser' => [0.4, 'ser'], 'raw' => [0.06, 'ser'], 'setstate' => [0.3, 'ser'], 'reconstruct' => [0.15, 'new'], 'reunser' => [0.1, 'new'],
            'drop' => [0.15, 'new'], 'gc' => [0.3, 'gc'], 'eq' => [0.3, 'read'], 'prop' => [0.2, 'read'], 'fn' => [0.3, 'fn'], 'ckpt' => [1, 'dur'], 'dmg' => [2, 'dur'], 'restore' => [1, 'dur'], 'link' => [2, 'cyc'], 'unlink' => [0.5, 'cyc'],
        ];
    }

    /** A call that raises a notice runs the error handler first: what happens is decided by the state after it. */
    protected function viaHandler(Coll $c, Ctx $x, callable $apply, callable $f, bool $must = true): void {
        $s = $this->s; $exp = null; $m = $c->m;
        $x->post = function () use (&$exp, $apply, $c, $m) { $now = $c->m; $c->m = $m; try { $exp = $apply(); } finally { $c->m = $now; } };
        $x->noticed = false; [$st, $v] = $s->call($x, $f); $x->post = null; $s->lg("{$x->name}(notice) $st");
        // while another task waits inside the handler PHP has it disabled, so the call may have got past the notice without it
        if ($st === 'inj') { if ($exp === null && !$x->noticed) $apply(); return; }
        if ($exp === null) { if ($must && !$s->pending && !$s->depth) $s->fail('result', "{$x->name}: fractional offset without a deprecation notice"); $exp = $apply(); }
        if ($st === 'exc') { $ok = false; if ($exp[0] === 'e') foreach (array_slice($exp, 1) as $k) if ($v instanceof $k) $ok = true; if (!$ok) $s->fail('result', "{$x->name}(notice): threw " . get_class($v) . ': ' . $v->getMessage() . ', expected ' . short($exp[1])); return; }
        if ($exp[0] === 'e') $s->fail('result', "{$x->name}(notice): returned " . short($s->m($v)) . ", expected {$exp[1]}");
        if (fp($s->m($v)) !== fp($exp[1])) $s->fail('result', "{$x->name}(notice): returned " . short($s->m($v)) . ', expected ' . short($exp[1]));
    }

    /* ---- model mutation primitives (keep cursors coherent) ---- */
    protected function mInsert(Model $m, int $at, mixed $k, mixed $v): int {
        $u = $this->s->uid(); $m->ver++;
        array_splice($m->V, $at, 0, [$v]); array_splice($m->K, $at, 0, [$k]); array_splice($m->U, $at, 0, [$u]);
        return $u;
    }
    protected function mRemove(Model $m, int $at): array {
        $u = $m->U[$at]; $m->ver++;
        foreach ($m->iters as $it) {
            if ($it->st === 'at' && $it->uid === $u) { $it->st = 'gap'; $it->pu = $m->U[$at - 1] ?? null; $it->su = $m->U[$at + 1] ?? null; }
            elseif ($it->st === 'gap') {
                if ($it->pu === $u) $it->pu = $m->U[$at - 1] ?? null;
                if ($it->su === $u) $it->su = $m->U[$at + 1] ?? null;
            }
        }
        $r = [$m->K[$at], $m->V[$at]];
        array_splice($m->V, $at, 1); array_splice($m->K, $at, 1); array_splice($m->U, $at, 1);
        return $r;
    }
    protected function mLoosen(Model $m): void { $m->ver++; foreach ($m->iters as $it) { if ($it->st !== 'un') $it->st = 'loose'; } }
    protected function mClear(Model $m): void { $this->mLoosen($m); $m->K = $m->V = $m->U = []; }
    public function mSet(Model $m, array $pairs): void { $this->mClear($m); foreach ($pairs as [$k, $v]) { $m->K[] = $k; $m->V[] = $v; $m->U[] = $this->s->uid(); } }

    /* ---- iterators ---- */
    /** does the (key, value) an iterator reports denote entry $i of the model? */
    abstract public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool;
    /** candidate entry indexes for a reported (key, value) */
    public function itFind(Model $m, mixed $k, mixed $v): array { $r = []; for ($i = 0, $n = $m->n(); $i < $n; $i++) { if ($this->itMatch($m, $i, $k, $v)) $r[] = $i; } return $r; }

    /** state changes of a cursor: expected entries after next(): [lo, hi] inclusive model indexes, hi === n means the end is allowed */
    public function itAdvanceRange(Iter $it): ?array {
        $m = $it->m; $n = $m->n();
        if ($it->st === 'at') { $i = array_search($it->uid, $m->U, true); return [$i + 1, $i + 1]; }
        if ($it->st === 'gap') {
            $lo = $it->pu === null ? 0 : array_search($it->pu, $m->U, true) + 1;
            $hi = $it->su === null ? $n : array_search($it->su, $m->U, true);
            return [$lo, $hi];
        }
        return null;
    }
    /** $obs = null (not valid) or [key, value] (real), $rng = allowed range or null (anything coherent) */
    public function itObserve(Iter $it, ?array $obs, ?array $rng, string $what): void {
        $s = $this->s; $m = $it->m; $n = $m->n();
        if ($m->ver !== $this->itVer) { // user code that ran inside the step changed the collection: nothing to compare with
            if ($obs === null) { $it->end(); } else { $it->st = 'loose'; $it->hold = $it->gen ? [$s->m($obs[0]), $s->m($obs[1])] : []; }
            return;
        }
        if ($obs === null) {
            if ($rng && $rng[1] < $n) $s->fail('iterator', "$what: iterator ended, but entry {$rng[1]} of $n remains (" . short($m->K[$rng[1]] ?? null) . '=>' . short($m->V[$rng[1]]) . ')');
            $it->end($m->ver); return;
        }
        $k = $s->m($obs[0]); $v = $s->m($obs[1]);
        $it->hold = $it->gen ? [$k, $v] : [];
        $cand = $this->itFind($m, $k, $v);
        if (!$cand) $s->fail('iterator', "$what: iterator yields " . short($k) . '=>' . short($v) . ' which is not in the collection (n=' . $n . ')');
        if ($rng) {
            foreach ($cand as $i) { if ($i >= $rng[0] && $i <= $rng[1]) { $it->st = 'at'; $it->uid = $m->U[$i]; return; } }
            $s->fail('iterator', "$what: iterator yields entry " . implode('/', $cand) . ' (' . short($k) . '=>' . short($v) . "), expected entry {$rng[0]}..{$rng[1]} of $n");
        }
        if (count($cand) === 1) { $it->st = 'at'; $it->uid = $m->U[$cand[0]]; } else { $it->st = 'loose'; }
    }
    /** observe a real iterator: null if not valid */
    public function itPeek(Iter $it): ?array {
        if ($it->gen) { if (!$it->o->valid()) return null; return $it->o->current(); }
        if (!$it->o->valid()) return null;
        return [$it->o->key(), $it->o->current()];
    }
    private int $itVer = 0;
    private function itCall(Iter $it, Ctx $x, callable $f): array { $v = $it->m->ver; $it->busy = true; $done = false; try { $r = $this->s->call($x, $f); $done = true; } finally { $it->busy = false; if (!$done) { if ($it->gen) $it->end(); else { $it->st = 'loose'; $it->endVer = -1; } } } $this->itVer = $v; return $r; }
    public function itOps(Iter $it, string $op, Ctx $x): void {
        $s = $this->s; $nm = "$x->name" . ($it->gen ? '(foreach)' : '') . "[{$it->st}]";
        $m = $it->m; if (!$it->o || $it->busy) return; // a step of this very iterator is in progress
        if ($it->st === 'un') { // first use rewinds
            [$st, $o] = $this->itCall($it, $x, fn() => $this->itPeek($it));
            $this->itRes($it, $st, $o, $x, fn() => $this->itObserve($it, $o, [0, 0], "$nm start"));
            if ($it->st === 'un' || $op !== 'next' || $st !== 'ok' || !$it->o) return;
            $x->name .= '+';
        }
        if ($op === 'next') {
            $rng = $this->itAdvanceRange($it); $was = $it->st; $ev = $it->endVer;
            [$st, $o] = $this->itCall($it, $x, function () use ($it) { $it->o->next(); return $this->itPeek($it); });
            $this->itRes($it, $st, $o, $x, function () use ($it, $o, $rng, $nm, $was, $ev, $m, $s) {
                if ($was === 'end' && ($it->gen || $ev === $m->ver) && $m->ver === $this->itVer) $s->check($o === null, 'iterator', "$nm: iterator valid again after its end");
                $this->itObserve($it, $o, $rng, "$nm next");
            });
        } elseif ($op === 'rewind') {
            if ($it->gen) return;
            [$st, $o] = $this->itCall($it, $x, function () use ($it) { $it->o->rewind(); return $this->itPeek($it); });
            $this->itRes($it, $st, $o, $x, fn() => $this->itObserve($it, $o, [0, 0], "$nm rewind"));
        } else {
            $was = $it->st;
            [$st, $o] = $this->itCall($it, $x, fn() => $this->itPeek($it));
            $this->itRes($it, $st, $o, $x, function () use ($it, $o, $was, $nm, $s, $m) {
                if ($it->gen) return; // reports what it already yielded
                if ($was === 'at') { $i = array_search($it->uid, $m->U, true); $this->itObserve($it, $o, [$i, $i], "$nm read"); }
                elseif ($was === 'end') {
                    if ($it->endVer === $m->ver) $s->check($o === null, 'iterator', "$nm: iterator valid again after its end");
                    if ($o !== null) $this->itObserve($it, $o, null, "$nm read");
                }
                elseif ($o !== null) { $keep = [$it->st, $it->uid]; $this->itObserve($it, $o, null, "$nm read"); if ($was === 'gap') { [$it->st, $it->uid] = $keep; } }
            });
            if ($st === 'ok' && $o === null && !$it->gen) { // past the end: current()/key() throw or give null, nothing else
                foreach (['current', 'key'] as $meth) {
                    [$st2, $v] = $s->call($x, fn() => $it->o->$meth());
                    if ($st2 === 'ok') $s->check($v === null, 'iterator', "$nm: $meth() of an iterator that is not valid gives " . short($s->m($v)));
                    elseif ($st2 === 'exc') $s->check($v instanceof RuntimeException, 'iterator', "$nm: $meth() past the end threw " . get_class($v));
                }
            }
        }
    }
    /** iterator objects standing at an entry must report it (foreach loops cannot be asked) */
    public function peekIters(Coll $c): void {
        if ($this instanceof HeapFam || $this instanceof CachedFam) return; $m = $c->m; $s = $this->s;
        foreach ($m->iters as $it) {
            if ($it->st !== 'at' || $it->gen || $it->busy || !$it->o) continue;
            $i = array_search($it->uid, $m->U, true); $o = $this->itPeek($it);
            if ($o === null) $s->fail('iterator', "{$c->cls}#{$c->sid}: an iterator at entry $i of {$m->n()} is not valid any more");
            if (!$this->itMatch($m, $i, $s->m($o[0]), $s->m($o[1]))) $s->fail('iterator', "{$c->cls}#{$c->sid}: an iterator at entry $i (" . short($m->K[$i]) . '=>' . short($m->V[$i]) . ') reports ' . short($s->m($o[0])) . '=>' . short($s->m($o[1])));
        }
    }
    private function itRes(Iter $it, string $st, mixed $o, Ctx $x, callable $f): void {
        if ($st === 'exc') $this->s->fail('iterator', "{$x->name}: " . get_class($o) . ': ' . $o->getMessage());
        if ($st === 'inj') { if ($it->gen) $it->end(); else { $it->st = 'loose'; $it->endVer = -1; $it->hold = []; } return; }
        $this->s->lg("{$x->name} -> " . ($o === null ? 'end' : short($this->s->m($o[0])) . '=>' . short($this->s->m($o[1]))));
        $f();
    }
    protected function it(Coll $c, int $r): ?Iter { $n = count($c->m->iters); return $n ? array_values($c->m->iters)[$r % $n] : null; }
    public function newIter(Coll $c, bool $gen): Iter {
        $it = new Iter; $it->m = $c->m; $it->f = $this; $it->cls = $c->cls; $it->gen = $gen;
        $it->o = $gen ? gen_foreach($c->o) : $c->o->getIterator();
        return $it;
    }
    public function op_it_new(Coll $c, array $a, Ctx $x): void {
        if (count($c->m->iters) >= 4) { $this->op_it_next($c, $a, $x); return; }
        $it = $this->newIter($c, $a[0] % 2 === 1);
        $c->m->iters[] = $it; $this->s->st('iterators_created'); $this->s->lg("{$x->name} " . ($it->gen ? 'foreach' : 'object'));
    }
    public function op_it_next(Coll $c, array $a, Ctx $x): void { $it = $this->it($c, $a[0]) ; if (!$it) { if ($a[1] % 3 == 0) { $this->op_it_new($c, $a, $x); } return; } $x->c = $c; for ($i = $a[1] % 3; $i >= 0; $i--) { $this->itOps($it, 'next', $x); } }
    public function op_it_read(Coll $c, array $a, Ctx $x): void { $it = $this->it($c, $a[0]); if ($it) $this->itOps($it, 'read', $x); }
    public function op_it_rewind(Coll $c, array $a, Ctx $x): void { $it = $this->it($c, $a[0]); if ($it) $this->itOps($it, 'rewind', $x); }
    public function op_it_drop(Coll $c, array $a, Ctx $x): void {
        $n = count($c->m->iters); if (!$n) return; $k = array_keys($c->m->iters)[$a[0] % $n]; if ($c->m->iters[$k]->busy) return;
        $this->s->lg($x->name); $this->s->st($c->m->iters[$k]->st === 'un' ? 'iterators_dropped_unstarted' : 'iterators_dropped_midway');
        $it = $c->m->iters[$k]; unset($c->m->iters[$k]); $c->m->iters = array_values($c->m->iters);
        $this->s->call($x, function () use ($it) { $it->o = null; });
    }
    public function op_it_full(Coll $c, array $a, Ctx $x): void {
        $it = $this->it($c, $a[0]); if (!$it) return;
        $lim = $c->m->n() + 5;
        while ($it->st !== 'end' && $it->o && !$it->busy) { if (--$lim < 0) $this->s->fail('iterator', "{$x->name}: iterator does not end"); $this->itOps($it, 'next', $x); if ($it->st === 'loose' && $x->thrown) return; }
    }
    public function op_it_orphan(Coll $c, array $a, Ctx $x): void {
        if (!$this->s->orphans) return; $k = array_keys($this->s->orphans)[$a[0] % count($this->s->orphans)]; $it = $this->s->orphans[$k];
        if ($it->busy) return;
        $x->name = 'orphan:' . $it->cls; $this->s->st('orphan_iterator_uses');
        if ($a[1] % 5 === 0) { $it->m->iters = array_values(array_filter($it->m->iters, fn($q) => $q !== $it)); unset($this->s->orphans[$k]); $this->s->call($x, function () use ($it) { $it->o = null; }); return; }
        $it->f->itOps($it, $a[1] % 5 === 1 ? 'read' : 'next', $x);
    }
    /** the slot's object goes away; live iterators keep the collection */
    protected function detach(Coll $c, Ctx $x): void {
        foreach ($c->m->iters as $it) { $this->s->orphans[] = $it; }
        $old = $c->o; $c->o = null;
        $this->s->call($x, function () use (&$old) { $old = null; });
    }
    /** plain foreach over the whole collection, nothing concurrent */
    public function op_foreach(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $m = $c->m; $v0 = $m->ver; $brk = $a[0] % 4 === 0 ? $a[1] % ($m->n() + 1) : -1;
        [$st, $r] = $s->call($x, function () use ($c, $brk) { $o = []; $lim = $c->m->n() + 20; foreach ($c->o as $k => $v) { if ($brk >= 0 && count($o) === $brk) break; $o[] = [$k, $v]; if (count($o) > $lim) break; } return $o; });
        if ($st !== 'ok') { if ($st === 'exc') $s->fail('iterator', "{$x->name}: " . get_class($r) . $r->getMessage()); return; }
        $s->lg("{$x->name} " . count($r));
        if ($m->ver !== $v0) return;
        $want = $brk >= 0 ? min($brk, $m->n()) : $m->n();
        $s->check(count($r) === $want, 'iterator', "{$x->name}: foreach gave " . count($r) . " entries, expected $want");
        foreach ($r as $i => [$k, $v]) { if (!$this->itMatch($m, $i, $s->m($k), $s->m($v))) $s->fail('iterator', "{$x->name}: foreach entry $i is " . short($s->m($k)) . '=>' . short($s->m($v)) . ', expected ' . short($m->K[$i]) . '=>' . short($m->V[$i])); }
    }

    /** elements cannot be modified through foreach by reference */
    public function op_byref(Coll $c, array $a, Ctx $x): void {
        if ($this instanceof EmptyFam) return;
        $this->s->expect($x, ['e', 'Error'], function () use ($c) { $i = 0; foreach ($c->o as &$v) { $v = 'stale'; if (++$i > 20) break; } });
    }
    /** \$r = &\$c[i] and \$c[i][] = x work on a copy of the element */
    protected function refEl(Coll $c, Ctx $x, bool $in, mixed $k, bool $nested): void {
        if (!$in) { $this->s->expect($x, ['e', 'OutOfBoundsException'], function () use ($c, $k, $nested) { if ($nested) $c->o[$k][] = 1; else { $r = &$c->o[$k]; $r = 'stale'; } }); return; }
        [$st, $e] = $this->s->call($x, function () use ($c, $k, $nested) { if ($nested) $c->o[$k][] = 1; else { $r = &$c->o[$k]; $r = 'stale'; } });
        if ($st === 'exc') $this->s->check($nested && $e instanceof Error, 'result', "{$x->name}: " . get_class($e) . ': ' . $e->getMessage());
        $this->s->lg("{$x->name} $st");
    }

    /* ---- shared ops ---- */
    public function op_count(Coll $c, array $a, Ctx $x): void {
        switch ($a[0] % 3) {
            case 0: $this->s->expect($x, ['v', $c->m->n()], fn() => $c->o->count()); break;
            case 1: $this->s->expect($x, ['v', $c->m->n()], fn() => count($c->o)); break;
            default: $this->s->expect($x, ['v', $c->m->n() === 0], fn() => $c->o->isEmpty());
        }
    }
    public function op_values(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', $c->m->V], fn() => $c->o->values()); }
    /** public pair views */
    public function pairs(Model $m): array { $r = []; foreach ($m->V as $i => $v) $r[] = [$m->K[$i], $v]; return $r; }
    public function plain(Coll $c): array { return $c->m->V; }
    public function op_jsonser(Coll $c, array $a, Ctx $x): void { if ($c->o instanceof JsonSerializable) $this->s->expect($x, ['v', $this->plain($c)], fn() => $c->o->jsonSerialize()); }
    public function op_cast(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', $this->plain($c)], fn() => (array)$c->o); }
    public function op_dump(Coll $c, array $a, Ctx $x): void {
        // debug views must be safe and must not disturb anything
        if (count($this->s->links) > 2) return; // PHP prints every path through a cyclic structure
        foreach ($this->s->links as [$m]) if (isset($m->x['src'])) return; // printing it would read the whole source
        [$st, $r] = $this->s->call($x, function () use ($c, $a) {
            switch ($a[0] % 5) {
                case 0: ob_start(); var_dump($c->o); ob_end_clean(); break;
                case 1: var_export($c->o, true); break;
                case 2: print_r($c->o, true); break;
                case 3: ob_start(); debug_zval_dump($c->o); ob_end_clean(); break;
                default: @json_encode($c->o, JSON_PARTIAL_OUTPUT_ON_ERROR);
            }
        });
        if ($st === 'exc') $this->s->fail('result', "{$x->name}: " . get_class($r) . ': ' . $r->getMessage());
        $this->s->lg($x->name);
    }
    public function op_prop(Coll $c, array $a, Ctx $x): void {
        [$st, $e] = $this->s->call($x, function () use ($c, $a) { switch ($a[0] % 4) { case 0: return isset($c->o->nope); case 1: return get_object_vars($c->o); case 2: return count(get_mangled_object_vars($c->o)); default: return $c->o->nope ?? 5; } });
        $this->s->lg($x->name);
    }
    public function op_eq(Coll $c, array $a, Ctx $x): void {
        $d = $this->s->slot($a[0]); if (!$d->o) return;
        [$st] = $this->s->call($x, fn() => $c->o == $d->o); // must be safe; NAN makes a value unequal to itself
        $this->s->lg("{$x->name} $st");
    }
    public function op_gc(Coll $c, array $a, Ctx $x): void { $this->s->st('fault_gc_step'); $this->s->lg($x->name); if ($this->s->cyc) $x->name = 'gc'; $this->s->gc(); $this->s->gcCheck(); }
    public function op_drop(Coll $c, array $a, Ctx $x): void { $this->op_new($c, $a, $x); }

    /** source pairs (real) for a constructor */
    protected function srcPairs(Coll $c, int $r, int $n): array {
        $ks = $vs = [];
        for ($i = 0; $i < $n; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; $ks[] = $this->isKeyed() ? ($i && ($r >> 24) % 6 === 0 ? $ks[($r >> 9) % $i] : $this->key($c, $r >> 3)) : $i; $vs[] = $this->elem($c->cls, ($r >> 5) ^ ($i * 7919)); }
        return [$ks, $vs];
    }
    /** build an iterable of the chosen shape; returns [iterable, keys, vals] as they will be yielded */
    protected function source(int $shape, array $ks, array $vs): array {
        $n = count($vs);
        switch ($shape % 6) {
            case 1: if (intdiv($shape, 6) % 2) { $this->s->st('src_give'); return [gen_give(array_reverse($ks), array_reverse($vs)), $ks, $vs]; }
            case 0: // array (keys limited to ints/strings)
                $arr = [];
                foreach ($vs as $i => $v) { $k = $ks[$i]; if (!is_int($k) && !is_string($k)) $k = "k$i"; $arr[$k] = $v; }
                $var = intdiv($shape, 6) % 4; $t = [$arr, array_keys($arr), array_values($arr)];
                if ($var === 1) { $t[0] = arr_refs($arr); $this->s->st('src_refs'); } elseif ($var === 2) { $t[0] = arr_holes($arr, intdiv($shape, 24)); $t[1] = array_keys($t[0]); $this->s->st('src_holes'); }
                return $t;
            case 2: if (intdiv($shape, 6) % 3 === 0) { $this->s->st('src_genref'); return [gen_ref($ks, $vs), $ks, $vs]; } return [gen_src($ks, $vs), $ks, $vs];
            case 3: return [new Src($ks, $vs), $ks, $vs];
            case 4: return [new AggSrc($ks, $vs), $ks, $vs];
            default: return [new ArrayIterator(array_combine(range(0, max(0, $n - 1)), $n ? $vs : [0])), $n ? range(0, $n - 1) : [0], $n ? $vs : [0]];
        }
    }
    protected function install(Coll $c, object $o, Model $m, Ctx $x): void {
        $this->detach($c, $x);
        $c->o = $o; $c->m = $m;
    }
    const EDGE = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300]; // sizes around growth steps
    public function op_new(Coll $c, array $a, Ctx $x): void {
        $n = !empty($this->s->cfg['edge']) && $a[1] % 4 ? self::EDGE[($a[1] >> 2) % 21] : ($a[1] % 5 === 0 ? 0 : ($a[1] % 7 === 0 ? 20 + $a[1] % 30 : 1 + $a[1] % 8));
        [$ks, $vs] = $this->srcPairs($c, $a[2], $n);
        [$src, $ks, $vs] = $this->source($a[0], $ks, $vs);
        $this->construct($c, $src, $ks, $vs, $x, $a[0]);
    }
    /** may the constructor be called without arguments? */
    private function bare(string $cls): bool { static $b = []; return $b[$cls] ??= !(new ReflectionMethod($cls, '__construct'))->getNumberOfRequiredParameters(); }
    protected function construct(Coll $c, mixed $src, array &$ks, array &$vs, Ctx $x, int $shape): void {
        $s = $this->s; $pairs = [];
        foreach ($vs as $i => $v) $pairs[] = [$s->m($ks[$i]), $s->m($v)];
        $none = !$vs; $ks = $vs = []; $v = null; // the source is now the only owner of its values
        $m = new Model; $err = $this->build($c->cls, $pairs, $m);
        $sc = $x->c; $x->c = null; // the object under construction is not visible
        [$st, $o] = $s->expect($x, $err ? ['e', $err] : ['ok'], $none && is_array($src) && intdiv($shape, 6) % 3 && $this->bare($c->cls) ? fn() => new $c->cls() : fn() => new $c->cls($src));
        $x->c = $sc; arr_spoil($src); $src = null;
        if ($st === 'ok') { $this->install($c, $o, $m, $x); }
        $s->lg("{$x->name} shape " . ($shape % 6) . ' n=' . count($pairs));
    }
    public function op_newfrom(Coll $c, array $a, Ctx $x): void {
        $d = $this->s->slot($a[0]); if (!$d || !$d->o || $d->f instanceof HeapFam) return;
        [$ks, $vs] = $d->f->asSource($d);
        if ($ks === null) return;
        $src = $d->o; if ($a[1] % 4 === 0 && !($d->f instanceof EmptyFam)) $src = $d->o->getIterator();
        $this->construct($c, $src, $ks, $vs, $x, 7);
    }
    /** what iterating this collection yields, as real values */
    public function asSource(Coll $d): array { return [$this->s->r($d->m->K), $this->s->r($d->m->V)]; }
    public function op_clone(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $t = $s->slots[$a[0] % count($s->slots)];
        [$st, $o] = $s->call($x, fn() => clone $c->o);
        if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($o) . ': ' . $o->getMessage());
        if ($st !== 'ok') return;
        $s->lg($x->name); $s->st('clones');
        $m = new Model; $m->K = $c->m->K; $m->V = $c->m->V; foreach ($m->V as $_) $m->U[] = $s->uid();
        $m->x = $c->m->x;
        $this->place($t, $c, $o, $m, $a, $x);
    }
    /** put a copy of $c into slot $t (or verify it and let it go) */
    protected function place(Coll $t, Coll $c, object $o, Model $m, array $a, Ctx $x): void {
        $tmp = new Coll($c->cls, $this, $m, $o); $tmp->sid = $c->sid;
        $this->verify($tmp);
        if ($t !== $c && $t->cls === $c->cls || $t === $c && $a[1] % 2) {
            $tmp->o = null; $t->f->detach($t, $x); $t->o = $o; $t->m = $m;
        }
    }
    public function op_setstate(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $st0 = $this->stateArray($c); if ($st0 === null) return;
        // data that user code still holds references into: what was restored must be a copy
        if ($refs = $a[2] % 3 === 1) { foreach ($st0 as $i => $p) if ($a[2] % 2 && is_array($p) && ($this instanceof KvFam || $this instanceof MapFam)) $st0[$i] = arr_refs($p); $st0 = arr_refs($st0); $s->st('restore_refs'); }
        [$st, $o] = $s->expect($x, ['ok'], fn() => $c->cls::__set_state($st0));
        if ($refs) arr_spoil($st0);
        $st0 = null;
        if ($st !== 'ok') return;
        $s->check(get_class($o) === $c->cls, 'result', "{$x->name}: __set_state gave a " . get_class($o));
        $m = new Model; $m->K = $c->m->K; $m->V = $c->m->V; foreach ($m->V as $_) $m->U[] = $s->uid(); $m->x = $c->m->x;
        $this->place($s->slots[$a[0] % count($s->slots)], $c, $o, $m, $a, $x);
    }
    /** argument for __set_state as var_export would write it (real values) */
    public function stateArray(Coll $c): ?array { return $this->s->r($this->plain($c)); }
    /** round trip through __serialize/__unserialize keeping object identity of tokens */
    public function op_reser(Coll $c, array $a, Ctx $x): void {
        $s = $this->s;
        $refs = $a[2] % 3 === 1 && $c->cls !== 'Teds\BitVector' && $c->cls !== 'Teds\ImmutableSortedStringSet' && !str_contains($c->cls, 'SortedInt') && $c->cls !== 'Teds\IntVector'; if ($refs) $s->st('restore_refs');
        [$st, $o] = $s->call($x, function () use ($c, $refs) { $d = $c->o->__serialize(); if ($refs) { if ($c->cls === 'Teds\LowMemoryVector') { if (is_array($d[1] ?? null)) $d[1] = arr_refs($d[1]); } else $d = arr_refs($d); } $o = simx_raw($c->cls); $o->__unserialize($d); if ($refs) arr_spoil($d); return $o; });
        if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($o) . ': ' . $o->getMessage());
        if ($st !== 'ok') return;
        $s->lg($x->name);
        $m = new Model; $m->K = $c->m->K; $m->V = $c->m->V; foreach ($m->V as $_) $m->U[] = $s->uid(); $m->x = $c->m->x;
        $this->place($s->slots[$a[0] % count($s->slots)], $c, $o, $m, $a, $x);
    }
    /** An object that user code took out of an unserialize() that then failed: its __unserialize() never ran. It is empty and harmless. */
    public function op_raw(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; if ($s->cfg['prop'] === 'C10') return; // (initialising it would be a constructor cut short)
        $x->script = []; $sc = $x->c; $x->c = null;
        [$st, $o] = $s->call($x, function () use ($c) { try { unserialize('O:' . strlen($c->cls) . ':"' . $c->cls . '":1:{i:0;O:4:"Peek":1:{i:0;r:1;}}'); } catch (PeekStop) {} finally { $o = Peek::$got; Peek::$got = null; } return $o; });
        $x->c = $sc; $s->lg("{$x->name} $st"); if ($st !== 'ok' || !is_object($o)) return; $s->st('raw_objects');
        $m = new Model; $m->x['raw'] = true; $this->install($c, $o, $m, $x);
    }
    /** such an object may be constructed or unserialized later, or refuse; if it holds something it has to refuse */
    public function op_rawfill(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $n0 = $c->m->n(); [$ks, $vs] = $this->srcPairs($c, $a[2], $a[1] % 12); [$src, $ks, $vs] = $this->source(0, $ks, $vs); $pairs = [];
        foreach ($vs as $i => $v) $pairs[] = [$s->m($ks[$i]), $s->m($v)]; $m = new Model; if ($this->build($c->cls, $pairs, $m)) return;
        $flat = $c->cls === 'Teds\BitVector' || $c->cls === 'Teds\ImmutableSortedStringSet' || str_contains($c->cls, 'SortedInt') ? null : []; if ($flat !== null) foreach ($vs as $i => $v) { if ($this instanceof KvFam || $this instanceof MapFam) $flat[] = $ks[$i]; $flat[] = $v; }
        $m0 = $c->m; $ver = $m0->ver; $un = $a[0] % 2 && $flat !== null; $ks = $vs = [];
        [$st, $e] = $s->call($x, $un ? fn() => $c->o->__unserialize($flat) : fn() => $c->o->__construct($src)); arr_spoil($src); $src = $flat = null; $s->lg("{$x->name} " . ($un ? 'unserialize' : 'construct') . " $st");
        if ($st === 'exc') { $s->check($e instanceof RuntimeException, 'result', "{$x->name}: " . get_class($e) . ': ' . $e->getMessage()); return; }
        if ($st !== 'ok' || $c->m !== $m0 || $m0->ver !== $ver) return;
        $s->check($n0 === 0, 'result', "{$x->name}: a collection with $n0 elements let itself be initialised again"); $this->mClear($m0); $m0->K = $m->K; $m0->V = $m->V; $m0->U = $m->U; unset($m0->x['raw']);
    }
    /** arguments of every shape for a second constructor call */
    protected function again(int $r, array $vs): iterable { switch ($r % 5) { case 0: return $vs; case 1: return gen_src(array_keys($vs), $vs); case 2: return new Src(array_keys($vs), $vs); case 3: return new AggSrc(array_keys($vs), $vs); default: return new ArrayIterator($vs); } }
    public function op_reconstruct(Coll $c, array $a, Ctx $x): void {
        // calling the constructor again must throw and change nothing
        $v = $this->elem($c->cls, $a[1]);
        if ($c->m->n() === 0 && !$this->immutable($c->cls)) return; // an empty one may not be told from an unconstructed one
        $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__construct($this->again($a[0], [$v])));
    }
    public function op_reunser(Coll $c, array $a, Ctx $x): void {
        if ($c->m->n() === 0 && !$this->immutable($c->cls)) return;
        $v = $this->elem($c->cls, $a[1]);
        $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__unserialize([$v, $v]));
    }
}
