<?php
/* Keyed maps and sets: StrictHashMap, StrictTreeMap, StrictSortedVectorMap / StrictHashSet, StrictTreeSet,
 * StrictSortedVectorSet, SortedIntVectorSet, ImmutableSortedIntSet, ImmutableSortedStringSet.
 * Model: ordered entries, unique by identity; insertion order (hash) or the documented stable order (sorted). */
abstract class KeyedFam extends Fam {
    public function isHash(string $cls): bool { return $cls === 'Teds\StrictHashMap' || $cls === 'Teds\StrictHashSet'; }
    protected function find(Model $m, mixed $k): int {
        if (!is_float($k) && !is_array($k) && !($k instanceof Val)) { $i = array_search($k, $m->K, true); return $i === false ? -1 : $i; }
        $f = ifp($k); foreach ($m->K as $i => $q) { if (ifp($q) === $f) return $i; } return -1; }
    protected function slotFor(string $cls, Model $m, mixed $k): int {
        if ($this->isHash($cls)) return $m->n();
        $lo = 0; $hi = $m->n();
        while ($lo < $hi) { $mid = ($lo + $hi) >> 1; if (scmp($m->K[$mid], $k) < 0) $lo = $mid + 1; else $hi = $mid; }
        return $lo;
    }
    /** insert or overwrite in the model; returns true if new */
    protected function put(string $cls, Model $m, mixed $k, mixed $v): bool {
        $i = $this->find($m, $k);
        if ($i >= 0) { $m->V[$i] = $v; $m->ver++; return false; }
        $this->mInsert($m, $this->slotFor($cls, $m, $k), $k, $v);
        return true;
    }
    protected function full(Coll $c): bool { return $c->m->n() > $this->s->maxLen; }
    /** an existing or a fresh key (real) */
    protected function pickKey(Coll $c, int $r): mixed { $n = $c->m->n(); if ($n && $r % 3) { $k = $this->s->r($c->m->K[intdiv($r, 3) % $n]); $q = intdiv($r, 3) >> 9; return $q % 9 === 4 ? alike($k, intdiv($q, 9), $this instanceof SetFam && $this->dom($c->cls) !== 'any') : $k; } return $this->freshKey($c, intdiv($r, 3)); }
    protected function freshKey(Coll $c, int $r): mixed { return $this->key($c, $r); }
    public function op_keys(Coll $c, array $a, Ctx $x): void { $this->keysEq($x, $c, fn() => $c->o->keys()); }
    /** compare a list of keys up to the sign of zero */
    protected function listEq(array $want, array $got): bool { if ($want === $got) return true; if (count($want) !== count($got) || !array_is_list($got)) return false; foreach ($want as $i => $w) { if (ifp($w) !== ifp($got[$i])) return false; } return true; }
    protected function keysEq(Ctx $x, Coll $c, callable $f): void {
        $want = $c->m->K;
        [$st, $r] = $this->s->expect($x, ['ok'], $f);
        if ($st === 'ok') { $r = $this->s->m($r); $this->s->lg(hash('xxh64', fp($r))); if (!is_array($r) || !$this->listEq($want, $r)) $this->s->fail('result', "{$x->name}: " . short($r) . ', expected ' . short($want)); }
    }
    protected function balanced(Coll $c): void {
        if (!str_contains($c->cls, 'Tree')) return;
        $this->s->check($c->o->debugIsBalanced(), 'state', "{$c->cls}#{$c->sid}: tree is not balanced");
        if ($this->s->opsDone % 5 || !$c->m->n()) return;
        $red = false; $h = $this->height($c->o->debugGetTreeRepresentation(), false, $red);
        $this->s->check(!$red, 'state', "{$c->cls}#{$c->sid}: a red node has a red child");
        $this->s->check($h <= 2 * log($c->m->n() + 1, 2) + 1e-9, 'state', "{$c->cls}#{$c->sid}: tree of {$c->m->n()} entries is $h levels deep");
    }
    private function height(array $t, bool $up, bool &$red): int { if (!$t) return 0; $r = !empty($t['red']); if ($r && $up) $red = true; return 1 + max($this->height($t['left'], $r, $red), $this->height($t['right'], $r, $red)); }
    public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool { return isset($m->U[$i]) && ifp($m->K[$i]) === ifp($k) && fp($m->V[$i]) === fp($v); }
    /** expected PHP array for toArray(), or null when a key cannot be an array key */
    protected function phpArray(array $ks, array $vs): ?array {
        $r = []; $this->undef = false;
        foreach ($vs as $i => $v) {
            $k = $ks[$i];
            if (is_array($k) || is_object($k)) return null;
            if (is_float($k)) { if (is_nan($k) || is_infinite($k) || abs($k) > 9e18) { $this->undef = true; $k = 0; } $k = (int)$k; }
            if (is_bool($k)) $k = (int)$k;
            if ($k === null) $k = '';
            $r[$k] = $v;
        }
        return $r;
    }
    private bool $undef = false;
    public function op_toarray(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $m = $c->m; $v0 = $m->ver; $w = $this->phpArray($m->K, $m->V); $undef = $this->undef;
        [$st, $r] = $s->call($x, fn() => $c->o->toArray());
        $s->lg("{$x->name} $st");
        if ($st === 'inj' || $m->ver !== $v0) return;
        if ($w === null) { $s->check($st === 'exc' && $r instanceof TypeError, 'result', "{$x->name}: a key of illegal type must be a TypeError"); return; }
        if ($undef) return;
        if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r) . ': ' . $r->getMessage());
        if (is_array($r)) { $mr = $s->m($r); $fr = fp($mr); if ($fr !== fp($w) && ifp($mr) !== ifp($w)) $s->fail('result', "{$x->name}: " . short($mr) . ', expected ' . short($w)); }
        else $s->fail('result', "{$x->name}: not an array");
    }
}

final class MapFam extends KeyedFam {
    const CLS = ['Teds\StrictHashMap', 'Teds\StrictTreeMap', 'Teds\StrictSortedVectorMap'];
    public function isKeyed(): bool { return true; }
    public function ops(string $cls): array {
        $o = $this->common($cls) + ['mset' => [5, 'mut'], 'munset' => [3, 'mut'], 'mget' => [2, 'read'], 'misset' => [1.5, 'read'], 'hasval' => [0.5, 'read'], 'keys' => [0.5, 'read'], 'topairs' => [0.5, 'read'], 'toarray' => [0.5, 'read'],
            'clear' => [0.2, 'clear'], 'bulk' => [0.4, 'grow'], 'drain' => [0.3, 'grow'], 'frompairs' => [0.4, 'new'], 'appendfail' => [0.15, 'mut'], 'churn' => [0.3, 'grow'], 'ukey' => [0.3, 'read'], 'refel' => [0.25, 'read']];
        if (!$this->isHash($cls)) $o += ['firstlast' => [1, 'read'], 'mpop' => [1.5, 'mut'], 'mpopfront' => [1.5, 'mut']];
        return $o;
    }
    public function build(string $cls, array $pairs, Model $m): ?string { foreach ($pairs as [$k, $v]) $this->put($cls, $m, $k, $v); return null; }
    public function plain(Coll $c): array { return $this->pairs($c->m); }
    public function verify(Coll $c): void {
        $s = $this->s; $m = $c->m; $n = $m->n();
        $rn = $c->o->count(); $s->check($rn === $n, 'state', "{$c->cls}#{$c->sid}: count() is $rn, expected $n");
        $k = $s->m($c->o->keys());
        if (!$this->listEq($m->K, $k)) $s->fail('state', "{$c->cls}#{$c->sid}: keys are " . short($k) . ', expected ' . short($m->K));
        $v = $s->m($c->o->values());
        if (!$s->same($v, $m->V)) { foreach ($m->V as $i => $q) if (fp($v[$i] ?? null) !== fp($q)) $s->fail('state', "{$c->cls}#{$c->sid}: value $i for key " . short($m->K[$i]) . ' is ' . short($v[$i] ?? null) . ', expected ' . short($q)); $s->fail('state', "{$c->cls}#{$c->sid}: values are " . short($v) . ', expected ' . short($m->V)); }
        unset($k, $v);
        if ($n) { // point lookups
            for ($j = 0; $j < 3; $j++) {
                $i = ($s->opsDone * 7 + $j * 5) % $n; $rk = $s->r($m->K[$i]);
                $s->check($c->o->containsKey($rk), 'state', "{$c->cls}#{$c->sid}: containsKey(" . short($m->K[$i]) . ') is false for a present key');
                $g = $s->m($c->o->get($rk, 'dflt')); if (fp($g) !== fp($m->V[$i])) $s->fail('state', "{$c->cls}#{$c->sid}: get(" . short($m->K[$i]) . ') is ' . short($g) . ', expected ' . short($m->V[$i]));
            }
        }
        $pk = $s->val($s->opsDone * 2654435761 % 1000003, array_values(array_diff($s->cfg['keys'] ?? ['small'], ['tok', 'otok', 'tokarr'])) ?: ['small']);
        $has = $this->find($m, $pk) >= 0; $s->check($c->o->containsKey($pk) === $has, 'state', "{$c->cls}#{$c->sid}: containsKey(" . short($pk) . ') must be ' . var_export($has, true));
        $this->balanced($c);
    }
    public function op_mset(Coll $c, array $a, Ctx $x): void {
        if ($this->full($c)) { $this->op_munset($c, $a, $x); return; }
        $k = $this->pickKey($c, $a[0]); $v = $this->elem($c->cls, $a[1]);
        $this->put($c->cls, $c->m, $this->s->m($k), $this->s->m($v)); $w = $a[2] % 2;
        $this->s->expect($x, ['v', null], function () use ($c, &$k, &$v, $w) { $q = $v; $l = $k; $v = $k = null; if ($w) $c->o[$l] = $q; else $c->o->offsetSet($l, $q); });
    }
    public function op_munset(Coll $c, array $a, Ctx $x): void {
        $k = $this->pickKey($c, $a[0]); $i = $this->find($c->m, $this->s->m($k));
        if ($i >= 0) $this->mRemove($c->m, $i);
        $w = $a[2] % 2;
        $this->s->expect($x, ['v', null], function () use ($c, &$k, $w) { $l = $k; $k = null; if ($w) unset($c->o[$l]); else $c->o->offsetUnset($l); });
    }
    public function op_bulk(Coll $c, array $a, Ctx $x): void { $n = 8 + $a[0] % 60; $r = $a[1]; for ($i = 0; $i < $n && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; if (!$this->full($c)) $this->op_mset($c, [3 * ($r >> 4), $r >> 5, $r >> 7], $x); } }
    public function op_drain(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $k = $n ? $a[0] % ($n + 1) : 0; $r = $a[1]; $mode = $a[2] % 3; for ($i = 0; $i < $k && $c->m->n() && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; $j = $mode === 0 ? 0 : ($mode === 1 ? $c->m->n() - 1 : ($r >> 8) % $c->m->n()); $this->op_munset($c, [3 * $j + 1, 0, $r >> 9], $x); } }
    public function op_churn(Coll $c, array $a, Ctx $x): void { $n = 10 + $a[0] % 40; $r = $a[1]; for ($i = 0; $i < $n && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; if ($i % 2) $this->op_munset($c, [$r >> 3, 0, $r >> 9], $x); else $this->op_mset($c, [$r >> 4, $r >> 5, $r >> 7], $x); } }
    public function op_mget(Coll $c, array $a, Ctx $x): void {
        $k = $this->pickKey($c, $a[0]); $i = $this->find($c->m, $this->s->m($k)); $e = $i >= 0 ? ['v', $c->m->V[$i]] : ['e', 'OutOfBoundsException'];
        switch ($a[1] % 5) {
            case 0: $this->s->expect($x, $e, fn() => $c->o[$k]); break;
            case 1: $this->s->expect($x, $e, fn() => $c->o->offsetGet($k)); break;
            case 2: $this->s->expect($x, $i >= 0 ? $e : ['v', 'dd'], fn() => $c->o->get($k, 'dd')); break;
            case 3: $this->s->expect($x, $e, fn() => $c->o->get($k)); break;
            default: $this->s->expect($x, $i >= 0 && $c->m->V[$i] !== null ? $e : ['v', 'dd'], fn() => $c->o[$k] ?? 'dd');
        }
    }
    public function op_misset(Coll $c, array $a, Ctx $x): void {
        $k = $this->pickKey($c, $a[0]); $i = $this->find($c->m, $this->s->m($k)); $v = $i >= 0 ? $c->m->V[$i] : null;
        switch ($a[1] % 4) {
            case 0: $this->s->expect($x, ['v', $v !== null], fn() => isset($c->o[$k])); break;
            case 1: $this->s->expect($x, ['v', !($v instanceof Stub || $v)], fn() => empty($c->o[$k])); break;
            case 2: $this->s->expect($x, ['v', $v !== null], fn() => $c->o->offsetExists($k)); break;
            default: $this->s->expect($x, ['v', $i >= 0], fn() => $c->o->containsKey($k));
        }
    }
    public function op_ukey(Coll $c, array $a, Ctx $x): void { // nested read through an array value
        $n = $c->m->n(); if (!$n) return; $i = $a[0] % $n; $v = $c->m->V[$i]; if (!is_array($v) || !$v) return; $k = array_key_first($v); $rk = $this->s->r($c->m->K[$i]);
        $this->s->expect($x, ['v', $v[$k]], fn() => $c->o[$rk][$k]);
    }
    public function op_refel(Coll $c, array $a, Ctx $x): void { $k = $this->pickKey($c, $a[0]); $this->refEl($c, $x, $this->find($c->m, $this->s->m($k)) >= 0, $k, (bool)($a[1] % 2)); }
    public function op_hasval(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $v = $n && $a[0] % 2 ? $this->s->r($c->m->V[$a[1] % $n]) : $this->elem($c->cls, $a[1]); $mv = $this->s->m($v);
        if (has_nan($mv)) { $this->s->call($x, fn() => $c->o->contains($v)); return; }
        $f = ifp($mv); $has = function () use ($c, $f) { foreach ($c->m->V as $q) { if (ifp($q) === $f) return ['v', true]; } return ['v', false]; };
        if ($a[2] % 2) $this->s->expect($x, $has(), fn() => $c->o->contains($v)); else $this->viaHandler($c, $x, $has, fn() => $c->o->containsValue($v), false);
    }
    public function op_topairs(Coll $c, array $a, Ctx $x): void { $this->pairsEq($c, $x, fn() => $c->o->toPairs()); }
    private function pairsEq(Coll $c, Ctx $x, callable $f): void {
        $w = $this->pairs($c->m);
        [$st, $r] = $this->s->expect($x, ['ok'], $f);
        if ($st !== 'ok') return;
        $r = $this->s->m($r); $ok = is_array($r) && array_is_list($r) && count($r) === count($w);
        if ($ok) foreach ($w as $i => [$k, $v]) { if (!is_array($r[$i]) || array_keys($r[$i]) !== [0, 1] || ifp($r[$i][0]) !== ifp($k) || fp($r[$i][1]) !== fp($v)) $ok = false; }
        if (!$ok) $this->s->fail('result', "{$x->name}: " . short($r) . ', expected ' . short($w));
    }
    public function op_jsonser(Coll $c, array $a, Ctx $x): void { $this->pairsEq($c, $x, fn() => $c->o->jsonSerialize()); }
    public function op_cast(Coll $c, array $a, Ctx $x): void { $this->pairsEq($c, $x, fn() => (array)$c->o); }
    public function op_clear(Coll $c, array $a, Ctx $x): void { $this->mClear($c->m); $this->s->expect($x, ['v', null], fn() => $c->o->clear()); }
    public function op_appendfail(Coll $c, array $a, Ctx $x): void { $v = $this->elem($c->cls, $a[0]); $this->s->expect($x, ['e', 'RuntimeException', 'Error'], function () use ($c, $v) { $c->o[] = $v; }); }
    public function op_firstlast(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $meth = ['first', 'last', 'firstKey', 'lastKey', 'bottom', 'top', 'bottomKey', 'topKey'][$a[0] % 8]; $i = $a[0] % 2 ? $n - 1 : 0;
        if (!$n) { $this->s->expect($x, ['e', 'UnderflowException'], fn() => $c->o->$meth()); return; }
        if (!str_ends_with($meth, 'Key')) { $this->s->expect($x, ['v', $c->m->V[$i]], fn() => $c->o->$meth()); return; }
        $w = $c->m->K[$i]; [$st, $r] = $this->s->expect($x, ['ok'], fn() => $c->o->$meth());
        if ($st === 'ok' && ifp($this->s->m($r)) !== ifp($w)) $this->s->fail('result', "{$x->name}:$meth " . short($this->s->m($r)) . ', expected ' . short($w));
    }
    private function popAt(Coll $c, Ctx $x, int $i, callable $f): void {
        if ($i < 0) { $this->s->expect($x, ['e', 'UnderflowException'], $f); return; }
        [$k, $v] = $this->mRemove($c->m, $i);
        [$st, $r] = $this->s->expect($x, ['ok'], $f);
        if ($st !== 'ok') return;
        $r = $this->s->m($r);
        if (!is_array($r) || array_keys($r) !== [0, 1] || ifp($r[0]) !== ifp($k) || fp($r[1]) !== fp($v)) $this->s->fail('result', "{$x->name}: " . short($r) . ', expected ' . short([$k, $v]));
    }
    public function op_mpop(Coll $c, array $a, Ctx $x): void { $this->popAt($c, $x, $c->m->n() - 1, fn() => $c->o->pop()); }
    public function op_mpopfront(Coll $c, array $a, Ctx $x): void { $m = $a[0] % 3 ? 'popFront' : 'shift'; $this->popAt($c, $x, $c->m->n() ? 0 : -1, fn() => $c->o->$m()); }
    public function op_frompairs(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $n = $a[1] % 4 === 0 ? 0 : 1 + $a[1] % 12; [$ks, $vs] = $this->srcPairs($c, $a[2], $n); $bad = $a[0] % 9 === 8 && $n ? $a[2] % $n : -1;
        $pairs = []; $mp = [];
        foreach ($vs as $i => $v) { $pairs[] = $i === $bad ? [7, [5 => $v], [0 => $ks[$i]], 'x', [1 => $v], ['k' => $ks[$i], 1 => $v], [0 => $ks[$i], 'v' => $v]][intdiv($a[2], 13) % 7] : ($a[2] % 5 === 1 ? arr_refs([$ks[$i], $v]) : [$ks[$i], $v]); $mp[] = [$s->m($ks[$i]), $s->m($v)]; }
        [$src] = $this->source($a[0], array_keys($pairs) ?: [], $pairs);
        if ($n === 0 && $a[0] % 6 === 5) $src = new ArrayIterator([]);
        $ks = $vs = $pairs = [];
        $m = new Model; $this->build($c->cls, $mp, $m);
        $sc = $x->c; $x->c = null;
        [$st, $o] = $s->expect($x, $bad >= 0 ? ['e', 'UnexpectedValueException'] : ['ok'], fn() => $c->cls::fromPairs($src));
        $x->c = $sc; arr_spoil($src); $src = null;
        if ($st === 'ok') { $this->install($c, $o, $m, $x); }
    }
    public function op_reunser(Coll $c, array $a, Ctx $x): void { if ($c->m->n() === 0) return; $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__unserialize([1, 2])); }
}

final class SetFam extends KeyedFam {
    const CLS = ['Teds\StrictHashSet', 'Teds\StrictTreeSet', 'Teds\StrictSortedVectorSet', 'Teds\SortedIntVectorSet', 'Teds\ImmutableSortedIntSet', 'Teds\ImmutableSortedStringSet'];
    public function dom(string $cls): string { return str_contains($cls, 'SortedInt') ? 'int' : (str_contains($cls, 'String') ? 'str' : 'any'); }
    public function ok(string $cls, mixed $v): bool { $d = $this->dom($cls); return $d === 'any' || ($d === 'int' ? is_int($v) : is_string($v)); }
    public function kinds(string $cls): ?array { switch ($this->dom($cls)) { case 'int': return $this->s->cfg['ikinds'] ?? ['small', 'int']; case 'str': return $this->s->cfg['skinds'] ?? ['str', 'nstr', 'dstr', 'lstr']; } return $this->s->cfg['keys'] ?? null; }
    public function elem(string $cls, int $r): mixed {
        $b = $this->s->cfg['bad'] ?? 53; if ($this->dom($cls) !== 'any' && $r % $b === $b - 1) return $this->s->val(intdiv($r, $b));
        return parent::elem($cls, $r);
    }
    protected function freshKey(Coll $c, int $r): mixed { return $this->elem($c->cls, $r); }
    public function ops(string $cls): array {
        $o = $this->common($cls) + ['has' => [2, 'read'], 'toarray' => [0.5, 'read']];
        if ($this->dom($cls) !== 'any') $o += ['getat' => [1, 'read'], 'indexof' => [1, 'read']];
        if (!$this->isHash($cls)) $o += ['firstlast' => [1, 'read']];
        if ($this->immutable($cls)) { $o += ['simmut' => [2, 'mut']]; if ($this->dom($cls) === 'str') $o += ['binser' => [1, 'ser']]; else $o += ['bigset' => [0.05, 'ser']]; return $o; }
        $o += ['add' => [5, 'mut'], 'remove' => [3, 'mut'], 'clear' => [0.2, 'clear'], 'bulk' => [0.4, 'grow'], 'drain' => [0.3, 'grow'], 'churn' => [0.3, 'grow']];
        if (!$this->isHash($cls)) $o += ['spop' => [1.5, 'mut']];
        if (!$this->isHash($cls) && $this->dom($cls) === 'any') $o += ['spopfront' => [1.5, 'mut']];
        return $o;
    }
    public function build(string $cls, array $pairs, Model $m): ?string { foreach ($pairs as [$k, $v]) { if (!$this->ok($cls, $v)) return 'TypeError'; $this->putv($cls, $m, $v); } return null; }
    private function putv(string $cls, Model $m, mixed $v): bool { if ($this->find($m, $v) >= 0) return false; $this->mInsert($m, $this->slotFor($cls, $m, $v), $v, $v); return true; }
    public function asSource(Coll $d): array { $v = $this->s->r($d->m->V); if ($this->dom($d->cls) !== 'any') return [$v ? range(0, count($v) - 1) : [], $v]; return [$v, $v]; }
    public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool { return isset($m->U[$i]) && ifp($m->V[$i]) === ifp($v) && ($k === $i || ifp($k) === ifp($v)); }
    public function verify(Coll $c): void {
        $s = $this->s; $m = $c->m; $n = $m->n(); $rn = $c->o->count();
        $s->check($rn === $n, 'state', "{$c->cls}#{$c->sid}: count() is $rn, expected $n");
        $v = $s->m($c->o->values());
        if (!$this->listEq($m->V, $v)) $s->fail('state', "{$c->cls}#{$c->sid}: values are " . short($v) . ', expected ' . short($m->V));
        unset($v);
        for ($j = 0; $n && $j < 3; $j++) { $i = ($s->opsDone * 7 + $j * 5) % $n; $rk = $s->r($m->V[$i]); $s->check($c->o->contains($rk), 'state', "{$c->cls}#{$c->sid}: contains(" . short($m->V[$i]) . ') is false for a present value'); }
        $pk = $s->val($s->opsDone * 2654435761 % 1000003, array_values(array_diff($this->kinds($c->cls) ?? $s->kinds, ['tok', 'otok', 'tokarr'])) ?: ['small']);
        $has = $this->find($m, $pk) >= 0; $s->check($c->o->contains($pk) === $has, 'state', "{$c->cls}#{$c->sid}: contains(" . short($pk) . ') must be ' . var_export($has, true));
        $this->balanced($c);
    }
    public function op_values(Coll $c, array $a, Ctx $x): void { $w = $c->m->V; [$st, $r] = $this->s->expect($x, ['ok'], fn() => $c->o->values()); if ($st === 'ok' && !$this->listEq($w, $this->s->m($r))) $this->s->fail('result', "{$x->name}: " . short($this->s->m($r)) . ', expected ' . short($w)); }
    public function op_jsonser(Coll $c, array $a, Ctx $x): void { $w = $c->m->V; [$st, $r] = $this->s->expect($x, ['ok'], fn() => $c->o->jsonSerialize()); if ($st === 'ok' && !$this->listEq($w, $this->s->m($r))) $this->s->fail('result', "{$x->name}: " . short($this->s->m($r)) . ', expected ' . short($w)); }
    public function op_cast(Coll $c, array $a, Ctx $x): void { $w = $c->m->V; [$st, $r] = $this->s->expect($x, ['ok'], fn() => (array)$c->o); if ($st === 'ok' && !$this->listEq($w, $this->s->m($r))) $this->s->fail('result', "{$x->name}: " . short($this->s->m($r)) . ', expected ' . short($w)); }
    public function op_toarray(Coll $c, array $a, Ctx $x): void { if ($this->dom($c->cls) !== 'any') { $this->s->expect($x, ['v', $c->m->V], fn() => $c->o->toArray()); return; } parent::op_toarray($c, $a, $x); }
    public function op_has(Coll $c, array $a, Ctx $x): void { $k = $this->pickKey($c, $a[0]); $has = $this->find($c->m, $this->s->m($k)) >= 0; $this->s->expect($x, ['v', $has], fn() => $c->o->contains($k)); }
    public function op_add(Coll $c, array $a, Ctx $x): void {
        if ($this->full($c)) { $this->op_remove($c, $a, $x); return; }
        $k = $this->pickKey($c, $a[0]);
        if (!$this->ok($c->cls, $k)) { $this->s->expect($x, ['e', 'TypeError'], fn() => $c->o->add($k)); return; }
        $new = $this->putv($c->cls, $c->m, $this->s->m($k));
        $this->s->expect($x, ['v', $new], function () use ($c, &$k) { $q = $k; $k = null; return $c->o->add($q); });
    }
    public function op_remove(Coll $c, array $a, Ctx $x): void {
        $k = $this->pickKey($c, $a[0]); $i = $this->find($c->m, $this->s->m($k));
        if (!$this->ok($c->cls, $k)) { [$st, $v] = $this->s->call($x, fn() => $c->o->remove($k)); $this->s->check($st === 'exc' && $v instanceof TypeError || $v === false, 'result', "{$x->name}: removing a value of a foreign type"); return; }
        if ($i >= 0) $this->mRemove($c->m, $i);
        $exp = $i >= 0;
        if ($c->cls === 'Teds\SortedIntVectorSet' && $exp && $this->s->remInv) { $this->s->known['K2'] = 1; $exp = false; }
        $this->s->expect($x, ['v', $exp], function () use ($c, &$k) { $q = $k; $k = null; return $c->o->remove($q); });
    }
    public function op_bulk(Coll $c, array $a, Ctx $x): void { $n = 8 + $a[0] % 60; $r = $a[1]; for ($i = 0; $i < $n && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; if (!$this->full($c)) $this->op_add($c, [3 * ($r >> 4), 0, 0], $x); } }
    public function op_drain(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $k = $n ? $a[0] % ($n + 1) : 0; $r = $a[1]; $mode = $a[2] % 3; for ($i = 0; $i < $k && $c->m->n() && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; $j = $mode === 0 ? 0 : ($mode === 1 ? $c->m->n() - 1 : ($r >> 8) % $c->m->n()); $this->op_remove($c, [3 * $j + 1, 0, 0], $x); } }
    public function op_churn(Coll $c, array $a, Ctx $x): void { $n = 10 + $a[0] % 40; $r = $a[1]; for ($i = 0; $i < $n && !$x->thrown; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; if ($i % 2) $this->op_remove($c, [$r >> 3, 0, 0], $x); else $this->op_add($c, [$r >> 4, 0, 0], $x); } }
    public function op_clear(Coll $c, array $a, Ctx $x): void { $this->mClear($c->m); $this->s->expect($x, ['v', null], fn() => $c->o->clear()); }
    public function op_firstlast(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $meth = ['first', 'last', 'bottom', 'top'][$a[0] % 4]; $i = $a[0] % 2 ? $n - 1 : 0; if ($this->dom($c->cls) !== 'any') $meth = ['first', 'last'][$a[0] % 2];
        if (!$n) { $this->s->expect($x, ['e', 'UnderflowException'], fn() => $c->o->$meth()); return; }
        $w = $c->m->V[$i]; [$st, $r] = $this->s->expect($x, ['ok'], fn() => $c->o->$meth()); if ($st === 'ok' && ifp($this->s->m($r)) !== ifp($w)) $this->s->fail('result', "{$x->name}:$meth " . short($this->s->m($r)) . ', expected ' . short($w));
    }
    private function popAt(Coll $c, Ctx $x, int $i, callable $f): void {
        if ($i < 0) { $this->s->expect($x, ['e', 'UnderflowException'], $f); return; }
        [, $v] = $this->mRemove($c->m, $i);
        [$st, $r] = $this->s->expect($x, ['ok'], $f);
        if ($st === 'ok' && ifp($this->s->m($r)) !== ifp($v)) $this->s->fail('result', "{$x->name}: " . short($this->s->m($r)) . ', expected ' . short($v));
    }
    public function op_spop(Coll $c, array $a, Ctx $x): void { $this->popAt($c, $x, $c->m->n() - 1, fn() => $c->o->pop()); }
    public function op_spopfront(Coll $c, array $a, Ctx $x): void { $m = $a[0] % 3 ? 'popFront' : 'shift'; $this->popAt($c, $x, $c->m->n() ? 0 : -1, fn() => $c->o->$m()); }
    public function op_getat(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $this->s->expect($x, $i >= 0 && $i < $n ? ['v', $c->m->V[$i]] : ['e', 'OutOfBoundsException'], fn() => $c->o->get($i)); }
    public function op_indexof(Coll $c, array $a, Ctx $x): void { $k = $this->pickKey($c, $a[0]); if (!$this->ok($c->cls, $k)) return; $i = $this->find($c->m, $k); $this->s->expect($x, ['v', $i >= 0 ? $i : null], fn() => $c->o->indexOf($k)); }
    public function op_binser(Coll $c, array $a, Ctx $x): void {
        [$st, $o] = $this->s->expect($x, ['ok'], fn() => $c->cls::unserialize($c->o->serialize()));
        if ($st !== 'ok') return; $m = new Model; $m->K = $c->m->K; $m->V = $c->m->V; foreach ($m->V as $_) $m->U[] = $this->s->uid();
        $this->place($this->s->slots[$a[0] % count($this->s->slots)], $c, $o, $m, $a, $x);
    }
    /** a set large enough that a restored copy keeps using the bytes it was restored from */
    public function op_bigset(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $w = [2, 2, 2, 1][$a[1] % 4]; $st = [1, 70000, 1 << 40][$w]; $n = 8192 / [2, 4, 8][$w] + [-1, 0, 1, 37][$a[2] % 4]; $b = [-4000, -1 << 30, PHP_INT_MIN][$w] + $a[0] % 64; $v = []; for ($i = 0; $i < $n; $i++) $v[] = $b + $i * $st;
        [$q, $o] = $s->expect($x, ['ok'], fn() => unserialize(serialize(new $c->cls($v)))); if ($q !== 'ok') return;
        $s->st('big_restores'); $p = $a[3] % $n; $it = []; foreach ($o as $k => $e) { if ($k !== count($it)) break; $it[] = $e; }
        $s->check($o->count() === $n && $o->values() === $v && $it === $v && $o->contains($v[$p]) && $o->indexOf($v[$p]) === $p && !$o->contains($v[$p] + ($st > 1 ? 1 : $n)) && $o->first() === $v[0] && $o->last() === $v[$n - 1], 'state', "{$x->name}: $n values were not restored");
    }
    public function op_simmut(Coll $c, array $a, Ctx $x): void {
        $v = $this->elem($c->cls, $a[1]); $E = ['e', 'RuntimeException', 'TypeError', 'Error'];
        $fs = [fn() => $c->o->add($v), fn() => $c->o->remove($v), fn() => $c->o->clear(), fn() => $c->o->__construct([$v]), fn() => $c->o->__unserialize([$v]), fn() => $c->o->__unserialize($c->o->__serialize()), function () use ($c, $v) { $c->o->dyn = $v; }, function () use ($c, $v) { $c->o[] = $v; }, function () use ($c, $v) { $c->o[0] = $v; }, function () use ($c) { unset($c->o[0]); }, function () use ($c) { foreach ($c->o as $k => &$e) { $e = 1; } }];
        $k = $a[0] % count($fs); $x->name .= ":$k";
        $this->s->expect($x, $E, $fs[$k]);
    }
    public function op_reunser(Coll $c, array $a, Ctx $x): void { if ($c->m->n() === 0 && !$this->immutable($c->cls)) return; $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__unserialize($c->o->__serialize())); }
    public function op_reconstruct(Coll $c, array $a, Ctx $x): void { if ($c->m->n() === 0 && !$this->immutable($c->cls)) return; $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__construct($this->again($a[0], $a[1] % 2 ? [] : [$this->elem($c->cls, $a[1])]))); }
}
