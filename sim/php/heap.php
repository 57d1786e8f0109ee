<?php
/* StrictMinHeap, StrictMaxHeap. Model: multiset kept as a list sorted by the stable order (extreme first). */
final class HeapFam extends Fam {
    const CLS = ['Teds\StrictMinHeap', 'Teds\StrictMaxHeap'];
    public function ops(string $cls): array {
        $o = $this->common($cls);
        foreach (['it_rewind', 'jsonser', 'it_orphan'] as $k) unset($o[$k]);
        $o['it_new'] = [0.4, 'iter']; $o['it_next'] = [1.5, 'iter']; $o['it_read'] = [0.5, 'iter']; $o['it_full'] = [0.1, 'iter']; $o['foreach'] = [0.2, 'mut'];
        return $o + ['add' => [6, 'mut'], 'extract' => [4, 'mut'], 'top' => [2, 'read'], 'cursor' => [1, 'read'], 'rewind' => [0.3, 'read'], 'hnext' => [1, 'mut'], 'contains' => [1, 'read'], 'toarray' => [0.4, 'read'], 'clear' => [0.2, 'clear'], 'bulk' => [0.4, 'grow'], 'drain' => [0.4, 'grow']];
    }
    private function sgn(string $cls): int { return $cls === 'Teds\StrictMinHeap' ? 1 : -1; }
    private function ins(string $cls, Model $m, mixed $v): void {
        $g = $this->sgn($cls); $lo = 0; $hi = $m->n();
        while ($lo < $hi) { $mid = ($lo + $hi) >> 1; if ($g * scmp($m->V[$mid], $v) <= 0) $lo = $mid + 1; else $hi = $mid; }
        $this->mInsert($m, $lo, null, $v);
    }
    public function build(string $cls, array $pairs, Model $m): ?string { foreach ($pairs as [, $v]) $this->ins($cls, $m, $v); return null; }
    public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool { return false; }
    private function bag(array $v): string { $f = array_map('ifp', $v); sort($f); return implode(',', $f); }
    public function verify(Coll $c): void {
        $s = $this->s; $m = $c->m; $n = $m->n(); $rn = $c->o->count(); $s->check($rn === $n, 'state', "{$c->cls}#{$c->sid}: count() is $rn, expected $n");
        if ($m->bagVer !== $m->ver) { $m->bag = $this->bag($m->V); $m->bagVer = $m->ver; } $v = $s->m($c->o->values()); if ($this->bag($v) !== $m->bag) $s->fail('state', "{$c->cls}#{$c->sid}: contents are " . short($v) . ', expected ' . short($m->V)); unset($v);
        $s->check($c->o->valid() === ($n > 0), 'state', "{$c->cls}#{$c->sid}: valid() with $n elements");
        if ($n) $this->ext($c, $s->m($c->o->top()), 'top()');
    }
    private function ext(Coll $c, mixed $got, string $what): void { $w = $c->m->V[0]; if (ifp($got) !== ifp($w)) $this->s->fail('result', "{$c->cls}#{$c->sid}: $what is " . short($got) . ', the extreme element is ' . short($w)); }
    /** remove from the model the entry equal to $got (among the extreme ones) */
    private function take(Coll $c): mixed { [, $v] = $this->mRemove($c->m, 0); return $v; }
    public function op_values(Coll $c, array $a, Ctx $x): void { $w = $this->bag($c->m->V); [$st, $r] = $this->s->expect($x, ['ok'], $a[0] % 2 ? fn() => $c->o->values() : fn() => $c->o->__serialize()); if ($st === 'ok' && (!array_is_list($r) || $this->bag($this->s->m($r)) !== $w)) $this->s->fail('result', "{$x->name}: " . short($this->s->m($r))); }
    public function op_cast(Coll $c, array $a, Ctx $x): void { $w = $this->bag($c->m->V); [$st, $r] = $this->s->expect($x, ['ok'], fn() => (array)$c->o); if ($st === 'ok' && $this->bag($this->s->m(array_values($r))) !== $w) $this->s->fail('result', "{$x->name}: " . short($this->s->m($r))); }
    public function op_add(Coll $c, array $a, Ctx $x): void {
        if ($c->m->n() > $this->s->maxLen) { $this->op_extract($c, $a, $x); return; }
        $n = $c->m->n(); $v = $n && $a[1] % 5 === 0 ? $this->s->r($c->m->V[$a[0] % $n]) : $this->elem($c->cls, $a[0]);
        $this->ins($c->cls, $c->m, $this->s->m($v));
        $this->s->expect($x, ['v', null], function () use ($c, &$v) { $q = $v; $v = null; $c->o->add($q); });
    }
    public function op_bulk(Coll $c, array $a, Ctx $x): void { $n = 5 + $a[0] % 50; $r = $a[1]; for ($i = 0; $i < $n && $c->m->n() <= $this->s->maxLen && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; $this->op_add($c, [$r >> 4, $r >> 6, 0], $x); } }
    public function op_drain(Coll $c, array $a, Ctx $x): void { $k = $a[0] % ($c->m->n() + 1); for ($i = 0; $i < $k && $c->m->n() && !$x->thrown; $i++) $this->op_extract($c, $a, $x); }
    private function popx(Coll $c, Ctx $x, callable $f, bool $ret): void {
        if (!$c->m->n()) { $this->s->expect($x, ['e', 'UnderflowException'], $f); return; }
        $v = $this->take($c);
        [$st, $r] = $this->s->expect($x, ['ok'], $f);
        if ($ret && $st === 'ok' && ifp($this->s->m($r)) !== ifp($v)) $this->s->fail('result', "{$x->name}: gave " . short($this->s->m($r)) . ', the extreme element is ' . short($v));
    }
    public function op_extract(Coll $c, array $a, Ctx $x): void { $this->popx($c, $x, fn() => $c->o->extract(), true); }
    public function op_hnext(Coll $c, array $a, Ctx $x): void { $this->popx($c, $x, fn() => $c->o->next(), false); }
    public function op_top(Coll $c, array $a, Ctx $x): void { $this->peek($c, $x, fn() => $c->o->top()); }
    public function op_cursor(Coll $c, array $a, Ctx $x): void { $this->peek($c, $x, $a[0] % 2 ? fn() => $c->o->current() : fn() => $c->o->key()); }
    private function peek(Coll $c, Ctx $x, callable $f): void {
        if (!$c->m->n()) { $this->s->expect($x, ['e', 'UnderflowException'], $f); return; }
        $w = $c->m->V[0]; [$st, $r] = $this->s->expect($x, ['ok'], $f); if ($st === 'ok' && ifp($this->s->m($r)) !== ifp($w)) $this->s->fail('result', "{$x->name}: gave " . short($this->s->m($r)) . ', the extreme element is ' . short($w));
    }
    public function op_rewind(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['ok'], fn() => $c->o->rewind()); }
    public function op_contains(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $v = $n && $a[0] % 2 ? $this->s->r($c->m->V[$a[1] % $n]) : $this->elem($c->cls, $a[1]); $mv = $this->s->m($v);
        if (has_nan($mv)) { $this->s->call($x, fn() => $c->o->contains($v)); return; }
        $f = ifp($mv); $has = false; foreach ($c->m->V as $q) if (ifp($q) === $f) $has = true;
        $this->s->expect($x, ['v', $has], fn() => $c->o->contains($v));
    }
    public function op_toarray(Coll $c, array $a, Ctx $x): void {
        $ok = true; foreach ($c->m->V as $v) { if (is_array($v) || is_object($v)) $ok = false; }
        $m0 = $c->m; $v0 = $m0->ver; $n = $m0->n();
        [$st, $r] = $this->s->call($x, fn() => $c->o->toArray());
        $this->s->lg("{$x->name} $st");
        if ($st === 'exc') $this->s->check(!$ok && $r instanceof TypeError, 'result', "{$x->name}: " . get_class($r));
        if ($st === 'ok' && $m0->ver === $v0) $this->s->check($ok && count($r) <= $n, 'result', "{$x->name}: wrong result");
    }
    public function op_clear(Coll $c, array $a, Ctx $x): void { $this->mClear($c->m); $this->s->expect($x, ['v', null], fn() => $c->o->clear()); }
    /* foreach consumes the heap */
    public function op_foreach(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $n = $c->m->n(); $k = $a[0] % ($n + 1); $v0 = $c->m->ver;
        $W = $c->m->V; $seen = []; if ($k === $n && $x->script) return;
        // leaving the loop after seeing k elements: k have been extracted (k-th break happens before its next())
        for ($i = 0; $i < $k; $i++) $this->take($c);
        $m0 = $c->m; $v0 = $m0->ver;
        [$st, $r] = $s->expect($x, ['ok'], function () use ($c, $k) { $o = []; foreach ($c->o as $key => $v) { if (count($o) >= $k) break; $o[] = $v; } return $o; });
        if ($st !== 'ok') return;
        foreach ($r as $i => $v) { if ($m0->ver !== $v0) return; if (ifp($s->m($v)) !== ifp($W[$i])) $s->fail('iterator', "{$x->name}: element $i of the loop is " . short($s->m($v)) . ', expected ' . short($W[$i])); }
    }
    /* a suspended foreach loop */
    public function op_it_new(Coll $c, array $a, Ctx $x): void { if (count($c->m->iters) >= 2) return; $it = new Iter; $it->m = $c->m; $it->f = $this; $it->cls = $c->cls; $it->gen = true; $it->o = gen_foreach($c->o); $c->m->iters[] = $it; $this->s->st('iterators_created'); }
    public function itOps(Iter $it, string $op, Ctx $x): void {
        $s = $this->s; $m = $it->m; $c = $x->c;
        if ($it->st === 'end' || !$it->o || $it->busy) return;
        $first = $it->st === 'un';
        if (!$first && $op !== 'next') return;
        $empty = $m->n() === 0;
        if (!$first && !$empty) { $this->mRemove($m, 0); }
        $v1 = $m->ver;
        $it->busy = true; try { [$st, $r] = $s->call($x, function () use ($it, $first) { if (!$first) $it->o->next(); return $it->o->valid() ? $it->o->current() : null; }); } finally { $it->busy = false; }
        $s->lg("{$x->name} loop $st " . ($st === 'ok' && $r ? short($s->m($r[1])) : ''));
        if ($st === 'exc') { $s->check($empty && $r instanceof UnderflowException, 'iterator', "{$x->name}: loop threw " . get_class($r) . ': ' . $r->getMessage()); $it->end(); return; }
        if ($st === 'inj') { $it->end(); return; }
        if ($m->ver !== $v1) { if ($r === null) $it->end(); else { $it->st = 'at'; $it->hold = [$s->m($r[1])]; } return; }
        if ($r === null) { $s->check($m->n() === 0, 'iterator', "{$x->name}: loop ended with {$m->n()} elements left"); $it->end(); return; }
        $s->check($m->n() > 0, 'iterator', "{$x->name}: loop yields from an empty heap");
        if (ifp($s->m($r[1])) !== ifp($m->V[0]) || ifp($s->m($r[0])) !== ifp($m->V[0])) $s->fail('iterator', "{$x->name}: loop yields " . short($s->m($r[1])) . ', the extreme element is ' . short($m->V[0]));
        $it->st = 'at'; $it->hold = [$s->m($r[1])];
    }
    public function op_it_full(Coll $c, array $a, Ctx $x): void { $it = $this->it($c, $a[0]); if (!$it) return; $lim = $c->m->n() + 60; while ($it->st !== 'end' && $it->o && !$it->busy) { if (--$lim < 0) $this->s->fail('iterator', "{$x->name}: loop does not end"); $this->itOps($it, 'next', $x); } }
    public function op_newfrom(Coll $c, array $a, Ctx $x): void { $d = $this->s->slot($a[0]); if (!$d || !$d->o || $d->f instanceof HeapFam) return; parent::op_newfrom($c, $a, $x); }
    public function stateArray(Coll $c): ?array { $v = $this->s->r($c->m->V); return $v; }
    public function op_reunser(Coll $c, array $a, Ctx $x): void { if ($c->m->n() === 0) return; $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__unserialize([1, 2])); }
}
