<?php
/* Sequences: Vector, Deque, LowMemoryVector, IntVector, BitVector, ImmutableSequence. Model: a list. */
final class SeqFam extends Fam {
    const CLS = ['Teds\Vector', 'Teds\Deque', 'Teds\LowMemoryVector', 'Teds\IntVector', 'Teds\BitVector', 'Teds\ImmutableSequence'];
    public function dom(string $cls): string { return $cls === 'Teds\IntVector' ? 'int' : ($cls === 'Teds\BitVector' ? 'bool' : 'any'); }
    public function ok(string $cls, mixed $v): bool { $d = $this->dom($cls); return $d === 'any' || ($d === 'int' ? is_int($v) : is_bool($v)); }
    public function kinds(string $cls): ?array {
        switch ($this->dom($cls)) { case 'int': return $this->s->cfg['ikinds'] ?? ['small', 'int']; case 'bool': return ['bool']; }
        return $cls === 'Teds\LowMemoryVector' ? ($this->s->cfg['lkinds'] ?? null) : null;
    }
    public function elem(string $cls, int $r): mixed {
        $b = $this->s->cfg['bad'] ?? 41; if ($this->dom($cls) !== 'any' && $r % $b === $b - 1) return $this->s->val(intdiv($r, $b)); // sometimes the wrong type
        if ($cls === 'Teds\BitVector' && isset($this->s->cfg['bitbias'])) return $r % 97 === 5 ? !$this->s->cfg['bitbias'] : $this->s->cfg['bitbias']; // long runs of equal bits
        return parent::elem($cls, $r);
    }
    public function ops(string $cls): array {
        $o = $this->common($cls);
        $o += ['get' => [1.5, 'read'], 'offget' => [1, 'read'], 'isset' => [1, 'read'], 'firstlast' => [0.7, 'read'], 'indexof' => [1, 'read'], 'contains' => [1, 'read'], 'toarray' => [0.7, 'read'], 'nestedget' => [0.2, 'read'], 'refel' => [0.25, 'read']];
        if ($this->immutable($cls)) { $o += ['mapfilter' => [2, 'cb'], 'immut' => [2, 'mut']]; unset($o['capacity']); return $o; }
        $o += ['push' => [4, 'mut'], 'bulk' => [0.4, 'grow'], 'pushfront' => [2, 'mut'], 'insert' => [2, 'mut'], 'pop' => [2, 'mut'], 'popfront' => [2, 'mut'], 'drain' => [0.3, 'grow'],
            'set' => [2, 'mut'], 'offset' => [1.5, 'mut'], 'append' => [1, 'mut'], 'unset' => [1.5, 'mut'], 'clear' => [0.25, 'clear'], 'capacity' => [0.5, 'read'], 'indirect' => [0.2, 'read']];
        if ($cls === 'Teds\Vector') $o += ['mapfilter' => [2, 'cb'], 'reserve' => [0.5, 'mut'], 'shrink' => [0.5, 'mut'], 'setsize' => [0.8, 'mut']];
        if ($cls === 'Teds\IntVector') $o += ['binser' => [0.5, 'ser']];
        if ($cls === 'Teds\BitVector') $o += ['binser' => [0.7, 'ser'], 'bitint' => [4, 'read'], 'setsize' => [1, 'mut']];
        return $o;
    }
    public function build(string $cls, array $pairs, Model $m): ?string {
        foreach ($pairs as [$k, $v]) { if (!$this->ok($cls, $v)) return 'TypeError'; $m->V[] = $v; $m->K[] = null; $m->U[] = $this->s->uid(); }
        return null;
    }
    public function asSource(Coll $d): array { $n = $d->m->n(); return [$n ? range(0, $n - 1) : [], $this->s->r($d->m->V)]; }
    public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool { return $k === $i && isset($m->U[$i]) && fp($m->V[$i]) === fp($v); }
    public function itFind(Model $m, mixed $k, mixed $v): array { return is_int($k) && $k >= 0 && $k < $m->n() && fp($m->V[$k]) === fp($v) ? [$k] : []; }
    public function stateKey(Coll $c): string { return parent::stateKey($c); }

    public function verify(Coll $c): void {
        $s = $this->s; $m = $c->m; $n = $m->n();
        $rn = $c->o->count();
        $s->check($rn === $n, 'state', "{$c->cls}#{$c->sid}: count() is $rn, expected $n");
        $rv = $s->m($c->o->values());
        if (!$s->same($rv, $m->V)) {
            foreach ($m->V as $i => $v) { if (!array_key_exists($i, $rv) || fp($rv[$i]) !== fp($v)) $s->fail('state', "{$c->cls}#{$c->sid}: element $i of $n is " . short($rv[$i] ?? null) . ', expected ' . short($v)); }
            $s->fail('state', "{$c->cls}#{$c->sid}: contents differ: " . short($rv) . ' expected ' . short($m->V));
        }
        unset($rv);
        if ($n) { $i = $s->opsDone % $n; $g = $s->m($c->o->get($i)); if (fp($g) !== fp($m->V[$i])) $s->fail('state', "{$c->cls}#{$c->sid}: get($i) is " . short($g) . ', expected ' . short($m->V[$i])); }
        if (!$this->immutable($c->cls)) { $cap = $c->o->capacity(); $s->check($cap >= $n, 'state', "{$c->cls}: capacity() $cap below count $n"); }
    }
    private function args(Coll $c, array $a, int $n): array { $r = []; $q = $a[1]; for ($i = 0; $i < $n; $i++) { $r[] = $this->elem($c->cls, $q); $q = ($q * 1103515245 + 12345) & 0x7fffffff; } return $r; }
    private function bad(Coll $c, array $vals): int { foreach ($vals as $i => $v) { if (!$this->ok($c->cls, $v)) return $i; } return -1; }
    private function full(Coll $c): bool { return $c->m->n() > $this->s->maxLen; }

    public function op_push(Coll $c, array $a, Ctx $x, ?array $vals = null): void {
        if ($this->full($c)) { $this->op_pop($c, $a, $x); return; }
        $vals ??= $this->args($c, $a, [1, 1, 1, 2, 3, 0, 5][$a[0] % 7]);
        $bad = $this->bad($c, $vals); $m = $c->m;
        if ($bad < 0) {
            foreach ($vals as $v) $this->mInsert($m, $m->n(), null, $this->s->m($v));
            $meth = 'push';
            if ($a[2] % 5 === 0 && $c->cls === 'Teds\IntVector') $meth = 'pushInts';
            if ($a[2] % 5 === 0 && $c->cls === 'Teds\BitVector') $meth = 'pushBits';
            $this->s->expect($x, ['v', null], fn() => $c->o->$meth(...$vals));
        } else {
            $x->oom = -1;
            [$st] = $this->s->expect($x, ['e', 'TypeError'], fn() => $c->o->push(...$vals));
            $k = $c->o->count() - $m->n(); // a prefix of the arguments may have been pushed
            $this->s->check($k >= 0 && $k <= $bad, 'atomicity', "{$x->name}: rejected push added $k elements, at most $bad were acceptable");
            for ($i = 0; $i < $k; $i++) $this->mInsert($m, $m->n(), null, $this->s->m($vals[$i]));
        }
    }
    public function op_bulk(Coll $c, array $a, Ctx $x): void { if ($c->m->n() > 40) { $this->op_drain($c, $a, $x); return; } $n = 8 + $a[0] % 70; if ($a[2] % 2 && $c->cls !== 'Teds\ImmutableSequence') { $this->op_pushfront($c, $a, $x, $this->goodArgs($c, $a, $n)); return; } $this->op_push($c, $a, $x, $this->goodArgs($c, $a, $n)); }
    private function goodArgs(Coll $c, array $a, int $n): array { $v = $this->args($c, $a, $n); return array_values(array_filter($v, fn($q) => $this->ok($c->cls, $q))); }
    public function op_drain(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $k = $n ? $a[0] % $n : 0; for ($i = 0; $i < $k && !$x->thrown; $i++) { if ($a[1] % 2) $this->op_popfront($c, [$i, 0, 0], $x); else $this->op_pop($c, [$i, 0, 0], $x); } }
    public function op_pushfront(Coll $c, array $a, Ctx $x, ?array $vals = null): void {
        if ($this->full($c)) { $this->op_popfront($c, $a, $x); return; }
        $vals ??= $this->args($c, $a, [1, 1, 1, 2, 3, 0, 5][$a[0] % 7]); $meth = $a[2] % 4 === 0 ? 'unshift' : 'pushFront';
        if ($this->bad($c, $vals) >= 0) { $this->s->expect($x, ['e', 'TypeError'], fn() => $c->o->$meth(...$vals)); return; }
        foreach ($vals as $v) $this->mInsert($c->m, 0, null, $this->s->m($v));
        $this->s->expect($x, ['v', null], fn() => $c->o->$meth(...$vals));
    }
    public function op_insert(Coll $c, array $a, Ctx $x): void {
        if ($this->full($c)) { $this->op_unset($c, $a, $x); return; }
        $n = $c->m->n(); $off = $this->s->offset($a[0], $n + 1); $vals = $this->args($c, $a, [1, 1, 2, 3, 0, 6][$a[2] % 6]);
        if ($off < 0 || $off > $n) { $this->s->expect($x, ['e', 'OutOfBoundsException'], fn() => $c->o->insert($off, ...$vals)); return; }
        if ($this->bad($c, $vals) >= 0) { $this->s->expect($x, ['e', 'TypeError'], fn() => $c->o->insert($off, ...$vals)); return; }
        foreach ($vals as $i => $v) $this->mInsert($c->m, $off + $i, null, $this->s->m($v));
        $this->s->expect($x, ['v', null], fn() => $c->o->insert($off, ...$vals));
    }
    public function op_pop(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); if (!$n) { $this->s->expect($x, ['e', 'UnderflowException'], fn() => $c->o->pop()); return; }
        [, $v] = $this->mRemove($c->m, $n - 1);
        $this->s->expect($x, ['v', $v], fn() => $c->o->pop());
    }
    public function op_popfront(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $meth = $a[2] % 4 === 0 ? 'shift' : 'popFront'; if (!$n) { $this->s->expect($x, ['e', 'UnderflowException'], fn() => $c->o->$meth()); return; }
        [, $v] = $this->mRemove($c->m, 0);
        $this->s->expect($x, ['v', $v], fn() => $c->o->$meth());
    }
    public function op_set(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $off = $this->s->offset($a[0], $n); $v = $this->elem($c->cls, $a[1]); $meth = 'set';
        if ($a[2] % 4 === 0 && $this->ok($c->cls, $v)) { if ($c->cls === 'Teds\IntVector') $meth = 'setInt'; if ($c->cls === 'Teds\BitVector') $meth = 'setBit'; }
        if ($off < 0 || $off >= $n) { $this->s->expect($x, ['e', 'OutOfBoundsException', 'TypeError'], fn() => $c->o->$meth($off, $v)); return; }
        if (!$this->ok($c->cls, $v)) { $this->s->expect($x, ['e', 'TypeError'], fn() => $c->o->set($off, $v)); return; }
        $c->m->V[$off] = $this->s->m($v); $c->m->ver++;
        $this->s->expect($x, ['v', null], function () use ($c, $off, &$v, $meth) { $q = $v; $v = null; $c->o->$meth($off, $q); });
    }
    /** an ArrayAccess offset: [offset, int|null(=type error)] */
    private function aoff(int $r, int $n, Ctx $x): array {
        $k = $r % 16; if ($k > 7 && $k < 12 && $x->script) $k = 7; // with a fault planned: more notices
        $i = $this->s->offset(intdiv($r, 16), $n);
        switch ($k) { case 0: return [(string)$i, $i]; case 1: return [(float)($i % 1000), $i % 1000]; case 2: return [false, 0]; case 3: return [true, 1]; case 4: return [null, null]; case 5: return ['x', null]; case 6: return [[], null]; case 7: $j = $n && $i >= 0 && intdiv($r, 16) % 3 ? min($i, $n - 1) : 0; return [$j + 0.5, $j]; default: return [$i, $i]; }
    }
    public function op_offset(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); [$off, $i] = $this->aoff($a[0], $n, $x); $v = $this->elem($c->cls, $a[1]);
        $f = $a[2] % 2 ? function () use ($c, $off, &$v) { $q = $v; $v = null; $c->o[$off] = $q; } : function () use ($c, $off, &$v) { $q = $v; $v = null; $c->o->offsetSet($off, $q); };
        if ($i === null) { $this->s->expect($x, ['e', 'TypeError'], $f); return; }
        $ok = $this->ok($c->cls, $v);
        if (is_float($off) && $off != floor($off)) {
            $mv = $this->s->m($v);
            if (!$ok) { $this->s->expect($x, ['e', 'RuntimeException', 'TypeError'], $f); return; }
            $this->viaHandler($c, $x, function () use ($c, $mv, $i) { if ($c->m->n() <= $i) return ['e', 'RuntimeException']; $c->m->V[$i] = $mv; $c->m->ver++; return ['v', null]; }, $f); return;
        }
        if ($i < 0 || $i >= $n) { $this->s->expect($x, ['e', 'RuntimeException', 'TypeError'], $f); return; }
        if (!$ok) { $this->s->expect($x, ['e', 'TypeError'], $f); return; }
        $c->m->V[$i] = $this->s->m($v); $c->m->ver++;
        $this->s->expect($x, ['v', null], $f);
    }
    public function op_append(Coll $c, array $a, Ctx $x): void {
        if ($this->full($c)) { $this->op_pop($c, $a, $x); return; }
        $v = $this->elem($c->cls, $a[1]);
        if (!$this->ok($c->cls, $v)) { $this->s->expect($x, ['e', 'TypeError'], function () use ($c, $v) { $c->o[] = $v; }); return; }
        $this->mInsert($c->m, $c->m->n(), null, $this->s->m($v));
        $this->s->expect($x, ['v', null], function () use ($c, $v) { $c->o[] = $v; });
    }
    public function op_unset(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); [$off, $i] = $this->aoff($a[0], $n, $x);
        $f = $a[2] % 2 ? function () use ($c, $off) { unset($c->o[$off]); } : fn() => $c->o->offsetUnset($off);
        if ($i === null) { $this->s->expect($x, ['e', 'TypeError'], $f); return; }
        if (is_float($off) && $off != floor($off)) { $this->viaHandler($c, $x, function () use ($c, $i) { if ($c->m->n() <= $i) return ['e', 'RuntimeException']; $this->mRemove($c->m, $i); return ['v', null]; }, $f); return; }
        if ($i < 0 || $i >= $n) { $this->s->expect($x, ['e', 'RuntimeException'], $f); return; }
        $this->mRemove($c->m, $i);
        $this->s->expect($x, ['v', null], $f);
    }
    public function op_clear(Coll $c, array $a, Ctx $x): void { $this->mClear($c->m); $this->s->expect($x, ['v', null], fn() => $c->o->clear()); }
    public function op_get(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $off = $this->s->offset($a[0], $n);
        $this->s->expect($x, $off < 0 || $off >= $n ? ['e', 'OutOfBoundsException'] : ['v', $c->m->V[$off]], fn() => $c->o->get($off));
    }
    public function op_offget(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); [$off, $i] = $this->aoff($a[0], $n, $x); $how = $a[1] % 3;
        $f = [fn() => $c->o[$off], fn() => $c->o->offsetGet($off), fn() => $c->o[$off] ?? 'dflt'][$how];
        $exp = function () use ($c, $i, $how) {
            $n = $c->m->n(); $e = $i === null ? ['e', 'TypeError'] : ($i < 0 || $i >= $n ? ['e', 'RuntimeException'] : ['v', $c->m->V[$i]]);
            if ($how === 2 && $i !== null && ($e[0] === 'e' || $e[1] === null)) $e = ['v', 'dflt'];
            return $e;
        };
        if (is_float($off) && $off != floor($off)) { if ($how === 1) return; $this->viaHandler($c, $x, $exp, $f); return; } // empty() converts the offset twice (offsetExists, offsetGet)
        $this->s->expect($x, $exp(), $f);
    }
    public function op_isset(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); [$off, $i] = $this->aoff($a[0], $n, $x); $how = $a[1] % 4;
        if ($how === 3) {
            if (is_int($off)) $this->s->expect($x, ['v', $i >= 0 && $i < $n], fn() => $c->o->containsKey($off));
            elseif ($c->cls !== 'Teds\Deque' && $c->cls !== 'Teds\ImmutableSequence') $this->s->expect($x, ['v', false], fn() => $c->o->containsKey($off)); // documented for int offsets only
            return;
        }
        $f = [fn() => isset($c->o[$off]), fn() => empty($c->o[$off]), fn() => $c->o->offsetExists($off)][$how];
        $exp = function () use ($c, $i, $how) { if ($i === null) return ['e', 'TypeError']; $in = $i >= 0 && $i < $c->m->n(); $v = $in ? $c->m->V[$i] : null; return ['v', $how === 1 ? !$in || !$this->truthy($v) : $in && $v !== null]; };
        if (is_float($off) && $off != floor($off)) { if ($how === 1) return; $this->viaHandler($c, $x, $exp, $f); return; } // empty() converts the offset twice (offsetExists, offsetGet)
        $this->s->expect($x, $exp(), $f);
    }
    public function truthy(mixed $v): bool { return $v instanceof Stub ? true : (bool)$v; }
    public function op_firstlast(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $f = $a[0] % 2; $meth = $f ? 'first' : 'last'; if ($c->cls === 'Teds\Deque' && $a[1] % 3 === 0) $meth = $f ? 'bottom' : 'top';
        $this->s->expect($x, $n ? ['v', $c->m->V[$f ? 0 : $n - 1]] : ['e', 'UnderflowException'], fn() => $c->o->$meth());
    }
    private function needle(Coll $c, array $a): mixed { $n = $c->m->n(); $v = $n && $a[0] % 2 ? $this->s->r($c->m->V[$a[1] % $n]) : $this->elem($c->cls, $a[1]); if ($n && $a[0] % 6 === 3) $v = alike($v, $a[2] >> 3, $c->cls === 'Teds\IntVector' || $c->cls === 'Teds\BitVector'); return is_array($v) && has_nan($v) ? 'absent' : $v; }
    private function pos(Coll $c, mixed $m): ?int { if (has_nan($m)) return null; $k = ifp($m); foreach ($c->m->V as $i => $v) { if (ifp($v) === $k) return $i; } return null; }
    public function op_indexof(Coll $c, array $a, Ctx $x): void {
        $v = $this->needle($c, $a); if (!$this->ok($c->cls, $v)) return;
        $p = $this->pos($c, $this->s->m($v));
        if ($c->cls === 'Teds\BitVector' && $this->s->bitInv) { $this->s->known['K1'] = 1; $p = $this->pos($c, !$v); }
        $this->s->expect($x, ['v', $p], fn() => $c->o->indexOf($v));
    }
    public function op_contains(Coll $c, array $a, Ctx $x): void {
        $v = $this->needle($c, $a); $p = $this->pos($c, $this->s->m($v));
        if ($c->cls === 'Teds\BitVector' && is_bool($v) && $this->s->bitInv) { $this->s->known['K1'] = 1; $p = $this->pos($c, !$v); }
        if ($a[2] % 4 === 0 && !($c->cls === 'Teds\BitVector')) { $this->s->expect($x, ['v', $p !== null], fn() => Teds\includes_value($c->o, $v)); return; }
        $this->s->expect($x, ['v', $p !== null], fn() => $c->o->contains($v));
    }
    public function op_toarray(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', $c->m->V], fn() => $c->o->toArray()); }
    public function op_cast(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', $c->m->V], fn() => (array)$c->o); }
    public function op_nestedget(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); if (!$n) return; $i = $a[0] % $n; $v = $c->m->V[$i];
        if (!is_array($v) || !$v) return; $k = array_key_first($v);
        $this->s->expect($x, ['v', $v[$k]], fn() => $c->o[$i][$k]);
    }
    public function op_refel(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $f = (bool)($a[1] % 2); if ($this->immutable($c->cls)) { $this->s->expect($x, ['e', 'RuntimeException', 'Error'], function () use ($c, $i, $f) { if ($f) $c->o[$i][] = 1; else { $r = &$c->o[$i]; $r = 'stale'; } }); return; } $this->refEl($c, $x, $i >= 0 && $i < $n, $i, $f); }
    public function op_indirect(Coll $c, array $a, Ctx $x): void { // writing through an element copy must not corrupt anything
        $n = $c->m->n(); if (!$n || $this->dom($c->cls) !== 'any') return; $i = $a[0] % $n; if (!is_array($c->m->V[$i])) return;
        if ($x->script) return;
        $this->s->call($x, function () use ($c, $i) { $c->o[$i][] = 5; });
        $this->s->lg($x->name);
    }
    public function op_capacity(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); [$st, $v] = $this->s->call($x, fn() => $c->o->capacity()); $this->s->check($st === 'ok' && is_int($v) && $v >= $n, 'result', "{$x->name}: " . short($v) . " with $n elements"); $this->s->lg("{$x->name} $v"); }
    public function op_reserve(Coll $c, array $a, Ctx $x): void {
        $k = [0, -1, 5, 17, 64, 200, $c->m->n(), $c->m->n() + 1][$a[0] % 8];
        [$st] = $this->s->expect($x, ['v', null], fn() => $c->o->reserve($k)); if ($st === 'ok') $this->s->check($c->o->capacity() >= $k, 'result', "{$x->name}($k): capacity " . $c->o->capacity());
    }
    public function op_shrink(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', null], fn() => $c->o->shrinkToFit()); }
    public function op_setsize(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $k = [$n + 1, $n + 5, max(0, $n - 1), intdiv($n, 2), 0, -1, $n, $n + 30, max(0, $n - 3)][$a[0] % 9];
        if ($k > $this->s->maxLen + 40) $k = $n;
        $two = $a[2] % 3 !== 0; $v = $this->elem($c->cls, $a[1]); if (!$this->ok($c->cls, $v)) $v = true; if (!$two) $v = $this->dom($c->cls) === 'bool' ? false : null;
        $f = $two ? fn() => $c->o->setSize($k, $v) : fn() => $c->o->setSize($k);
        if ($k < 0) { $this->s->expect($x, ['e', 'ValueError'], $f); return; }
        $m = $c->m;
        if ($k < $n) { $this->mLoosen($m); array_splice($m->V, $k); array_splice($m->K, $k); array_splice($m->U, $k); }
        for ($i = $n; $i < $k; $i++) $this->mInsert($m, $i, null, $this->s->m($v));
        $this->s->expect($x, ['v', null], $f);
    }
    /* map()/filter(): the callback is user code; result must be exactly what the callback calls imply */
    public function op_mapfilter(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $m = $c->m; $map = $a[0] % 2 === 0; $before = $m->V; $seen = []; $rets = []; $v0 = $m->ver; $mode = $a[1] % 4; $x->name .= $map ? ':map' : ':filter';
        if (!$map && $a[1] % 11 === 0) { // no callback: keeps truthy values
            [$st, $o] = $s->expect($x, ['ok'], fn() => $c->o->filter());
            if ($st === 'ok') { $w = array_values(array_filter($before, fn($v) => $this->truthy($v))); $s->check(fp($s->m($o->values())) === fp($w), 'result', "{$x->name}(): wrong contents"); $this->keep($c, $o, $w, $a, $x); }
            return;
        }
        $everyIn = $before;
        $cb = function ($v) use ($s, $mode, &$seen, &$rets, $a, $map, $c) {
            $mv = $s->m($v); $i = count($seen); $seen[] = $mv;
            if (count($seen) > 400) throw new LogicException('too many callbacks');
            $s->ev('cb');
            switch ($mode) { case 0: $r = $v; break; case 1: $r = $s->val($a[2] + $i * 31); break; case 2: $r = [$v, $i]; break; default: $r = $i % 3; }
            $rets[] = $map ? $s->m($r) : [$mv, is_object($r) || (bool)$r];
            return $r;
        };
        [$st, $o] = $s->expect($x, ['ok'], fn() => $map ? $c->o->map($cb) : $c->o->filter($cb));
        if ($st !== 'ok') return;
        $s->check(get_class($o) === $c->cls, 'result', "{$x->name}: result class " . get_class($o));
        $w = $map ? $rets : array_column(array_filter($rets, fn($q) => $q[1]), 0);
        $s->check(fp($s->m($o->values())) === fp(array_values($w)), 'result', "{$x->name}: result " . short($s->m($o->values())) . ', callback calls imply ' . short(array_values($w)));
        $s->check(count($o) === count($w), 'result', "{$x->name}: result count");
        if ($m->ver === $v0) $s->check(fp($seen) === fp($before), 'result', "{$x->name}: callback saw " . short($seen) . ', elements were ' . short($before));
        $seen = []; $rets = []; $cb = null;
        $this->keep($c, $o, array_values($w), $a, $x);
    }
    private function keep(Coll $c, object $o, array $w, array $a, Ctx $x): void {
        $m = new Model; foreach ($w as $v) { $m->V[] = $v; $m->K[] = null; $m->U[] = $this->s->uid(); }
        $this->place($this->s->slots[$a[2] % count($this->s->slots)], $c, $o, $m, $a, $x);
    }
    public function op_binser(Coll $c, array $a, Ctx $x): void {
        $s = $this->s;
        [$st, $o] = $s->expect($x, ['ok'], function () use ($c) { $d = $c->o->serialize(); return $c->cls::unserialize($d); });
        if ($st === 'ok') $this->keep($c, $o, $c->m->V, $a, $x);
    }
    public function op_immut(Coll $c, array $a, Ctx $x): void {
        $v = $this->s->val($a[1]); $E = ['e', 'RuntimeException', 'TypeError', 'Error']; $n = $c->m->n(); $i = $n ? $a[2] % $n : 0; $w = [$i, $n, -1, '0', null, 'x'][$a[2] % 6];
        $fs = [fn() => $c->o->push($v), fn() => $c->o->pop(), fn() => $c->o->pushFront($v), fn() => $c->o->popFront(), fn() => $c->o->insert($i, $v), fn() => $c->o->set($i, $v), fn() => $c->o->clear(), fn() => $c->o->shift(), fn() => $c->o->unshift($v),
            function () use ($c, $w, $v) { $c->o[$w] = $v; }, function () use ($c, $v) { $c->o[] = $v; }, function () use ($c, $w) { unset($c->o[$w]); }, fn() => $c->o->offsetSet($w, $v), fn() => $c->o->offsetUnset($w), fn() => $c->o->__construct([$v]), fn() => $c->o->__unserialize([$v]), function () use ($c, $v) { $c->o->dyn = $v; },
            function () use ($c, $i) { foreach ($c->o as $k => &$e) { $e = 1; } }, function () use ($c, $i) { unset($c->o[$i]['q']); }, function () use ($c, $n, $v) { $c->o[$n] ??= 1; }, function () use ($c, $i, $v) { [$c->o[$i]] = [$v]; }, fn() => $c->o->__construct($this->again($a[1], [$v]))];
        $k = $a[0] % count($fs); $x->name .= ":$k";
        $this->s->expect($x, $E, $fs[$k]);
    }
    /* BitVector word access: little-endian words over the bit list */
    public function op_bitint(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $m = $c->m; $n = $m->n(); $w = [8, 16, 32, 64][$a[0] % 4]; $cnt = intdiv($n, $w); $off = $s->offset($a[1], $cnt); $oob = $off < 0 || $off >= $cnt;
        switch (intdiv($a[0], 4) % 4) {
            case 0: case 1: $uns = $w < 64 && intdiv($a[0], 16) % 2; $meth = 'get' . ($uns ? 'U' : '') . "Int$w";
                if ($oob) { $s->expect($x, ['e', 'OutOfBoundsException'], fn() => $c->o->$meth($off)); return; }
                $val = 0; for ($i = 0; $i < $w; $i++) { if ($m->V[$off * $w + $i]) $val |= 1 << $i; }
                if (!$uns && $w < 64 && ($val >> ($w - 1)) & 1) $val -= 1 << $w;
                $s->expect($x, ['v', $val], fn() => $c->o->$meth($off)); return;
            case 2: $meth = "setInt$w"; $v = $s->val($a[2], ['int', 'i32', 'i16', 'i8']);
                if ($oob) { $s->expect($x, ['e', 'OutOfBoundsException'], fn() => $c->o->$meth($off, $v)); return; }
                for ($i = 0; $i < $w; $i++) $m->V[$off * $w + $i] = (($v >> $i) & 1) === 1; $m->ver++;
                $s->expect($x, ['v', null], fn() => $c->o->$meth($off, $v)); return;
            default:
                if ($n % 8) { $s->call($x, fn() => $c->o->toBinaryString()); $s->lg($x->name); return; }
                $str = ''; for ($i = 0; $i < $n; $i += 8) { $b = 0; for ($j = 0; $j < 8; $j++) if ($m->V[$i + $j]) $b |= 1 << $j; $str .= chr($b); }
                $s->expect($x, ['v', $str], fn() => $c->o->toBinaryString());
                [$st, $o] = $s->expect($x, ['ok'], fn() => Teds\BitVector::fromBinaryString($str));
                if ($st === 'ok') $this->keep($c, $o, $m->V, $a, $x);
        }
    }
    public function stateArray(Coll $c): ?array { return $this->s->r($c->m->V); }
}
