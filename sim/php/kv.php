<?php
/* MutableIterable, ImmutableIterable: model is a list of (key, value) pairs. */
class KvFam extends Fam {
    const CLS = ['Teds\MutableIterable', 'Teds\ImmutableIterable'];
    public function isKeyed(): bool { return true; }
    public function ops(string $cls): array {
        $o = $this->common($cls) + ['keys' => [1, 'read'], 'topairs' => [1, 'read'], 'toarray' => [0.5, 'read'], 'keyat' => [1.5, 'read'], 'valueat' => [1.5, 'read'], 'idx' => [1.5, 'read'], 'has' => [1.5, 'read'], 'frompairs' => [0.4, 'new']];
        if ($this->immutable($cls)) return $o + ['kimmut' => [1.5, 'mut']];
        return $o + ['kpush' => [5, 'mut'], 'kpop' => [2.5, 'mut'], 'setkey' => [2, 'mut'], 'setval' => [2, 'mut'], 'setsize' => [0.8, 'mut'], 'shrink' => [0.4, 'mut'], 'capacity' => [0.3, 'read'], 'clear' => [0.25, 'clear'], 'bulk' => [0.3, 'grow'], 'drain' => [0.3, 'grow']];
    }
    public function build(string $cls, array $pairs, Model $m): ?string { foreach ($pairs as [$k, $v]) { $m->K[] = $k; $m->V[] = $v; $m->U[] = $this->s->uid(); } return null; }
    public function plain(Coll $c): array { return $this->pairs($c->m); }
    public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool { return isset($m->U[$i]) && fp($m->K[$i]) === fp($k) && fp($m->V[$i]) === fp($v); }
    public function verify(Coll $c): void {
        $s = $this->s; $m = $c->m; $n = $m->n(); $rn = $c->o->count(); $s->check($rn === $n, 'state', "{$c->cls}#{$c->sid}: count() is $rn, expected $n");
        $p = $s->m($c->o->toPairs()); $w = $this->pairs($m);
        if (!$s->same($p, $w)) $s->fail('state', "{$c->cls}#{$c->sid}: pairs are " . short($p) . ', expected ' . short($w)); unset($p);
        if ($n) { $i = $s->opsDone % $n; $k = $s->m($c->o->keyAt($i)); $v = $s->m($c->o->valueAt($i)); if (fp($k) !== fp($m->K[$i]) || fp($v) !== fp($m->V[$i])) $s->fail('state', "{$c->cls}#{$c->sid}: entry $i is " . short($k) . '=>' . short($v) . ', expected ' . short($m->K[$i]) . '=>' . short($m->V[$i])); }
    }
    public function op_keys(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', $c->m->K], fn() => $c->o->keys()); }
    public function op_topairs(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', $this->pairs($c->m)], fn() => $c->o->toPairs()); }
    public function op_toarray(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $m = $c->m; $v0 = $m->ver; $w = []; $bad = false; $skip = false;
        foreach ($m->V as $i => $v) { $k = $m->K[$i]; if (is_array($k) || is_object($k)) { $bad = true; break; } if (is_float($k)) { if (is_nan($k) || is_infinite($k) || abs($k) > 9e18) { $skip = true; $k = 0; } $k = (int)$k; } if (is_bool($k)) $k = (int)$k; if ($k === null) $k = ''; $w[$k] = $v; }
        [$st, $r] = $s->call($x, fn() => $c->o->toArray()); $s->lg("{$x->name} $st");
        if ($st === 'inj' || $m->ver !== $v0) return;
        if ($bad) { $s->check($st === 'exc' && $r instanceof TypeError, 'result', "{$x->name}: illegal key type must throw"); return; }
        if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r) . ': ' . $r->getMessage());
        if (!$skip && fp($s->m($r)) !== fp($w)) $s->fail('result', "{$x->name}: " . short($s->m($r)) . ', expected ' . short($w));
    }
    public function op_keyat(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $this->s->expect($x, $i >= 0 && $i < $n ? ['v', $c->m->K[$i]] : ['e', 'OutOfBoundsException'], fn() => $c->o->keyAt($i)); }
    public function op_valueat(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $this->s->expect($x, $i >= 0 && $i < $n ? ['v', $c->m->V[$i]] : ['e', 'OutOfBoundsException'], fn() => $c->o->valueAt($i)); }
    protected function pos(array $L, mixed $m): ?int { if (has_nan($m)) return null; $k = ifp($m); foreach ($L as $i => $v) { if (ifp($v) === $k) return $i; } return null; }
    protected function needle(Coll $c, array $L, array $a, bool $key): mixed { $n = count($L); $v = $n && $a[0] % 2 ? $this->s->r($L[$a[1] % $n]) : ($key ? $this->key($c, $a[1]) : $this->elem($c->cls, $a[1])); if ($n && $a[0] % 6 === 3) $v = alike($v, $a[2] >> 3); return is_array($v) && has_nan($v) ? 'absent' : $v; } // an array holding NAN is identical to itself but not to a copy
    public function op_idx(Coll $c, array $a, Ctx $x): void { $key = $a[2] % 2 === 0; $L = $key ? $c->m->K : $c->m->V; $v = $this->needle($c, $L, $a, $key); $this->s->expect($x, ['v', $this->pos($L, $this->s->m($v))], $key ? fn() => $c->o->indexOfKey($v) : fn() => $c->o->indexOfValue($v)); }
    public function op_has(Coll $c, array $a, Ctx $x): void { $w = $a[2] % 3; $L = $w === 0 ? $c->m->K : $c->m->V; $v = $this->needle($c, $L, $a, $w === 0); $meth = ['containsKey', 'containsValue', 'contains'][$w]; $this->s->expect($x, ['v', $this->pos($L, $this->s->m($v)) !== null], fn() => $c->o->$meth($v)); }
    public function op_kpush(Coll $c, array $a, Ctx $x): void {
        if ($c->m->n() > $this->s->maxLen) { $this->op_kpop($c, $a, $x); return; }
        $k = $this->key($c, $a[0]); $v = $this->elem($c->cls, $a[1]); $this->mInsert($c->m, $c->m->n(), $this->s->m($k), $this->s->m($v));
        $this->s->expect($x, ['v', null], function () use ($c, &$k, &$v) { $p = $k; $q = $v; $k = $v = null; $c->o->push($p, $q); });
    }
    public function op_bulk(Coll $c, array $a, Ctx $x): void { $n = 5 + $a[0] % 40; $r = $a[1]; for ($i = 0; $i < $n && !$x->thrown && $c->m->n() <= $this->s->maxLen; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; $this->op_kpush($c, [$r >> 4, $r >> 6, 0], $x); } }
    public function op_drain(Coll $c, array $a, Ctx $x): void { $k = $a[0] % ($c->m->n() + 1); for ($i = 0; $i < $k && $c->m->n() && !$x->thrown; $i++) $this->op_kpop($c, $a, $x); }
    public function op_kpop(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); if (!$n) { $this->s->expect($x, ['e', 'UnderflowException'], fn() => $c->o->pop()); return; }
        $w = $this->mRemove($c->m, $n - 1); $this->s->expect($x, ['v', $w], fn() => $c->o->pop());
    }
    public function op_setkey(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $k = $this->key($c, $a[1]); $f = function () use ($c, $i, &$k) { $q = $k; $k = null; $c->o->setKeyAt($i, $q); };
        if ($i < 0 || $i >= $n) { $this->s->expect($x, ['e', 'OutOfBoundsException'], $f); return; }
        $c->m->K[$i] = $this->s->m($k); $c->m->ver++; $this->s->expect($x, ['v', null], $f);
    }
    public function op_setval(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $k = $this->elem($c->cls, $a[1]); $f = function () use ($c, $i, &$k) { $q = $k; $k = null; $c->o->setValueAt($i, $q); };
        if ($i < 0 || $i >= $n) { $this->s->expect($x, ['e', 'OutOfBoundsException'], $f); return; }
        $c->m->V[$i] = $this->s->m($k); $c->m->ver++; $this->s->expect($x, ['v', null], $f);
    }
    public function op_setsize(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $k = [$n + 1, $n + 5, max(0, $n - 1), intdiv($n, 2), 0, -1, $n, $n + 20, max(0, $n - 3)][$a[0] % 9]; if ($k > $this->s->maxLen + 40) $k = $n; $m = $c->m;
        if ($k < 0) { $this->s->expect($x, ['e', 'ValueError'], fn() => $c->o->setSize($k)); return; }
        if ($k < $n) { $this->mLoosen($m); array_splice($m->V, $k); array_splice($m->K, $k); array_splice($m->U, $k); }
        for ($i = $n; $i < $k; $i++) $this->mInsert($m, $i, null, null);
        $this->s->expect($x, ['v', null], fn() => $c->o->setSize($k));
    }
    public function op_shrink(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', null], fn() => $c->o->shrinkToFit()); }
    public function op_capacity(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); [$st, $v] = $this->s->call($x, fn() => $c->o->capacity()); $this->s->check($st === 'ok' && is_int($v) && $v >= $n, 'result', "{$x->name}: " . short($v) . " with $n elements"); }
    public function op_clear(Coll $c, array $a, Ctx $x): void { $this->mClear($c->m); $this->s->expect($x, ['v', null], fn() => $c->o->clear()); }
    public function op_frompairs(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $n = $a[1] % 4 === 0 ? 0 : 1 + $a[1] % 12; [$ks, $vs] = $this->srcPairs($c, $a[2], $n); $bad = $a[0] % 9 === 8 && $n ? $a[2] % $n : -1; $pairs = []; $mp = [];
        foreach ($vs as $i => $v) { $pairs[] = $i === $bad ? [7, [5 => $v], [0 => $ks[$i]], 'x', [1 => $v], ['k' => $ks[$i], 1 => $v], [0 => $ks[$i], 'v' => $v]][intdiv($a[2], 13) % 7] : ($a[2] % 5 === 1 ? arr_refs([$ks[$i], $v]) : [$ks[$i], $v]); $mp[] = [$s->m($ks[$i]), $s->m($v)]; }
        $src = $pairs;
        if (!($this instanceof CachedFam)) { [$src] = $this->source($a[0], array_keys($pairs) ?: [], $pairs); if ($n === 0 && $a[0] % 6 === 5) $src = new ArrayIterator([]); }
        $ks = $vs = $pairs = []; $m = new Model; $this->build($c->cls, $mp, $m); $sc = $x->c; $x->c = null;
        [$st, $o] = $s->expect($x, $bad >= 0 ? ['e', 'UnexpectedValueException'] : ['ok'], fn() => $c->cls::fromPairs($src));
        $x->c = $sc; arr_spoil($src); $src = null;
        if ($st === 'ok') $this->install($c, $o, $m, $x);
    }
    public function op_kimmut(Coll $c, array $a, Ctx $x): void {
        $v = $this->elem($c->cls, $a[1]); $fs = [fn() => $c->o->clear(), fn() => $c->o->__construct([$v]), fn() => $c->o->__unserialize([1, $v]), function () use ($c, $v) { $c->o->dyn = $v; }, function () use ($c, $v) { $c->o[] = $v; }, function () use ($c, $v) { $c->o[0] = $v; }, function () use ($c) { unset($c->o[0]); }, function () use ($c) { foreach ($c->o as $k => &$e) { $e = 1; } }];
        $k = $a[0] % count($fs); $x->name .= ":$k"; $this->s->expect($x, ['e', 'RuntimeException', 'TypeError', 'Error'], $fs[$k]);
    }
    public function op_reunser(Coll $c, array $a, Ctx $x): void { if ($c->m->n() === 0 && !$this->immutable($c->cls)) return; $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__unserialize([1, 2])); }
}

/** What a lazy source has produced so far; shared by the source and the model. */
final class SrcState { public int $stored = 0; public int $made = 0; public int $busy = 0; public bool $failed = false; public array $log = []; public bool $ended = false; public bool $lazy = true; public ?Closure $onFail = null;
    public function ev(): void { $this->busy++; try { Sim::$i->ev('src'); } catch (Throwable $e) { if ($f = $this->onFail) { $this->onFail = null; $f(); } throw $e; } finally { $this->busy--; } }
}
final class LazySrc implements Iterator {
    private int $i = 0; private int $cur = -1;
    public function __construct(private SrcState $st, private array $ks, private array $vs) {}
    private function ev(): void { $this->st->ev(); }
    public function rewind(): void { $this->st->log[] = 'r'; $this->ev(); $this->i = 0; }
    public function valid(): bool { $this->ev(); if ($this->i >= count($this->vs)) { $this->st->ended = true; return false; } return true; }
    public function current(): mixed { $this->st->log[] = $this->i; $this->st->made = max($this->st->made, $this->i + 1); $this->ev(); return $this->vs[$this->i]; }
    public function key(): mixed { $this->ev(); $k = $this->ks[$this->i]; $this->st->stored = $this->i + 1; return $k; }
    public function next(): void { $this->ev(); $this->i++; }
    /** given up by the collection at its end, on failure, or when the collection goes away */
    public function __destruct() { Sim::$i?->onSrcDtor(); }
}
final class LazyAgg implements IteratorAggregate { public function __construct(private SrcState $st, private array $ks, private array $vs) {} public function getIterator(): Iterator { Sim::$i->ev('src'); return new LazySrc($this->st, $this->ks, $this->vs); } }
function lazy_gen(SrcState $st, array $ks, array $vs) {
    foreach ($vs as $i => $v) { $st->stored = $i; $st->ev(); $st->log[] = $i; $st->made = $i + 1; $st->stored = $i + 1; yield $ks[$i] => $v; }
    $st->ev(); $st->ended = true;
}
/* CachedIterable: like ImmutableIterable, plus laziness, exactly-once consumption and failure of the source. */
final class CachedFam extends KvFam {
    const CLS = ['Teds\CachedIterable'];
    public function immutable(string $cls): bool { return true; }
    public function op_rawfill(Coll $c, array $a, Ctx $x): void {}
    public function ops(string $cls): array {
        $o = parent::ops('Teds\ImmutableIterable');
        foreach (['eq' => 0.1, 'new' => 1.5, 'frompairs' => 0.1, 'newfrom' => 0.15, 'values' => 0.3, 'keys' => 0.3, 'topairs' => 0.3, 'toarray' => 0.2, 'jsonser' => 0.2, 'cast' => 0.15, 'dump' => 0.15, 'foreach' => 0.3, 'count' => 0.5, 'reser' => 0.15, 'setstate' => 0.15, 'clone' => 0.1, 'idx' => 0.7, 'has' => 0.7, 'it_full' => 0.2, 'kimmut' => 0.5] as $k => $w) $o[$k][0] = $w;
        $o['keyat'] = [1.5, 'read']; $o['it_next'] = [6, 'iter']; $o['it_new'] = [2, 'iter'];
        return $o;
    }
    private function ss(Model $m): ?SrcState { return $m->x['src'] ?? null; }
    private function failedNow(Model $m): void { // the source gave up: only what was stored stays
        $ss = $this->ss($m); $n = $ss->stored; $ss->failed = true;
        if ($n > $m->n()) $n = $m->n();
        array_splice($m->V, $n); array_splice($m->K, $n); array_splice($m->U, $n);
        $m->x['fin'] = true; $m->x['bad'] = true;
    }
    /** Is index $i (or everything, -1) available without asking the source? */
    private function cached(Model $m, int $i): bool { $ss = $this->ss($m); if (!$ss || !empty($m->x['fin'])) return true; return $i >= 0 && $i < $this->got($m); }
    /** number of elements the collection has stored (a generator is one ahead) */
    private function got(Model $m): int { $ss = $this->ss($m); return $ss ? min($m->x['need'] ?? 0, $ss->stored) : $m->n(); }
    private function need(Model $m, int $i): void { $n = $m->n(); $m->x['need'] = max($m->x['need'] ?? 0, min($i + 1, $n)); if ($i >= $n) { $m->x['all'] = true; $m->x['need'] = $n; } }
    /** run $f which needs entry $i (PHP_INT_MAX: all); $exp as in expect() when the source delivers */
    private function fetch(Coll $c, Ctx $x, int $i, array $exp, callable $f): array {
        $s = $this->s; $m = $c->m; $ss = $this->ss($m); $n = $m->n();
        if (!empty($m->x['bad']) && $i >= $n) $exp = ['e', 'RuntimeException']; // includes OutOfBounds
        elseif ($ss && empty($m->x['fin']) && $ss->busy > 0 && !$this->cached($m, $i)) { $exp = ['e', 'RuntimeException']; $s->st('refused_while_fetching'); [$st, $v] = $s->expect($x, $exp, $f); return ['exc', $v]; }
        $busy0 = $ss ? $ss->busy : 0;
        $wasCached = $this->cached($m, $i); $done = false;
        $n0 = $m->x['need'] ?? 0;
        if ($ss && empty($m->x['fin'])) $this->need($m, $i);
        try {
            [$st, $v] = $s->call($x, $f); $done = true;
        } finally { if (!$done && $ss && !$wasCached && empty($m->x['fin'])) { $this->failedNow($m); } }
        if ($ss && $st === 'inj' && !$wasCached && empty($m->x['fin'])) { if ($ss->busy === 0 && !$ss->ended) $this->failedNow($m); }
        $s->lg("{$x->name} $st");
        if ($st === 'ok' || $st === 'exc') {
            if (!empty($m->x['bad']) && $i >= $m->n()) $exp = $exp[0] === 'any' ? $exp : ['e', 'RuntimeException'];
            if ($st === 'exc') {
                $ok = false; if ($exp[0] === 'e') foreach (array_slice($exp, 1) as $k) { if ($v instanceof $k) $ok = true; }
                if (!$ok) $s->fail('result', "{$x->name}: unexpected " . get_class($v) . ': ' . $v->getMessage() . ', expected ' . ($exp[0] === 'v' ? short($exp[1]) : implode('|', array_filter($exp, 'is_string'))));
            } elseif ($exp[0] === 'e') $s->fail('result', "{$x->name}: returned " . short($s->m($v)) . ', expected exception ' . implode('|', array_slice($exp, 1)));
            elseif ($exp[0] === 'v' && fp($s->m($v)) !== fp($exp[1])) $s->fail('result', "{$x->name}: returned " . short($s->m($v)) . ', expected ' . short($exp[1]));
        }
        $this->lazy($c->m, $x);
        return [$st, $v];
    }
    private function lazy(Model $m, Ctx $x): void {
        $ss = $this->ss($m); if (!$ss || !$ss->lazy) return; $s = $this->s;
        $need = $m->x['need'] ?? 0; $gen = !empty($m->x['gen']);
        $lim = $gen ? max(1, $need) : $need;
        $s->check($ss->made <= $lim || !empty($m->x['all']), 'laziness', "{$x->name}: source was asked for {$ss->made} elements, callers needed only $need");
        if ($ss->ended && empty($m->x['all'])) $s->check($gen && ($need >= $m->n()) && $ss->made === 0, 'laziness', "{$x->name}: source was run to its end although nobody needed that");
        $l = array_values(array_filter($ss->log, 'is_int')); foreach ($l as $i => $q) $s->check($q === $i, 'laziness', "{$x->name}: source element $q fetched as number $i: " . json_encode($ss->log));
        $s->check(count(array_keys($ss->log, 'r', true)) <= 1, 'laziness', "{$x->name}: source rewound more than once");
        $s->st('laziness_checks');
        if ($ss->ended && $ss->busy === 0) $m->x['fin'] = true;
    }
    public function verify(Coll $c): void {
        // must not disturb laziness: only look at what is cached already
        $m = $c->m; $s = $this->s; $g = $this->cached($m, -1) ? $m->n() : $this->got($m);
        if ($this->ss($m) && $this->ss($m)->busy) return;
        for ($j = 0; $j < 4 && $g > 0; $j++) { $i = ($s->opsDone * 3 + $j * 7) % $g; $k = $s->m($c->o->keyAt($i)); $v = $s->m($c->o->valueAt($i)); if (fp($k) !== fp($m->K[$i]) || fp($v) !== fp($m->V[$i])) $s->fail('state', "{$c->cls}#{$c->sid}: entry $i is " . short($k) . '=>' . short($v) . ', source gave ' . short($m->K[$i]) . '=>' . short($m->V[$i])); }
        if ($this->cached($m, -1) && empty($m->x['bad'])) { $rn = $c->o->count(); $s->check($rn === $m->n(), 'state', "{$c->cls}#{$c->sid}: count() is $rn, expected {$m->n()}"); }
    }
    public function stateKey(Coll $c): string { return $this->got($c->m) . parent::stateKey($c) . (empty($c->m->x['bad']) ? '' : 'bad'); }
    const ALL = PHP_INT_MAX - 1;
    public function hasFirst(Coll $c): bool { return $this->isDone($c) || empty($c->m->x['bad']) && $c->m->n() && $this->cached($c->m, 0); }
    public function isDone(Coll $c): bool { return $this->cached($c->m, -1) && empty($c->m->x['bad']); }
    private function whole(Coll $c, Ctx $x, mixed $want, callable $f): void { $this->fetch($c, $x, self::ALL, ['v', $want], $f); }
    public function op_count(Coll $c, array $a, Ctx $x): void { $n = $c->m->n(); if ($a[0] % 3 === 2) { $this->fetch($c, $x, 0, ['v', $n === 0], fn() => $c->o->isEmpty()); return; } $this->whole($c, $x, $n, $a[0] % 3 ? fn() => $c->o->count() : fn() => count($c->o)); }
    public function op_values(Coll $c, array $a, Ctx $x): void { $this->whole($c, $x, $c->m->V, fn() => $c->o->values()); }
    public function op_keys(Coll $c, array $a, Ctx $x): void { $this->whole($c, $x, $c->m->K, fn() => $c->o->keys()); }
    public function op_topairs(Coll $c, array $a, Ctx $x): void { $this->whole($c, $x, $this->pairs($c->m), fn() => $c->o->toPairs()); }
    public function op_jsonser(Coll $c, array $a, Ctx $x): void { $this->whole($c, $x, $this->pairs($c->m), fn() => $c->o->jsonSerialize()); }
    public function op_toarray(Coll $c, array $a, Ctx $x): void {
        $w = []; $bad = false;
        foreach ($c->m->V as $i => $v) { $k = $c->m->K[$i]; if (is_array($k) || is_object($k)) { $bad = true; break; } if (is_float($k)) { if (is_nan($k) || is_infinite($k) || abs($k) > 9e18) return; $k = (int)$k; } if (is_bool($k)) $k = (int)$k; $w[$k ?? ''] = $v; }
        $this->fetch($c, $x, self::ALL, $bad ? ['e', 'TypeError'] : ['v', $w], fn() => $c->o->toArray());
    }
    public function op_cast(Coll $c, array $a, Ctx $x): void { if (!empty($c->m->x['bad'])) return; $this->whole($c, $x, $this->pairs($c->m), fn() => (array)$c->o); }
    /** a source that has just failed may still be being taken down further up the stack: whole queries are refused until then */
    private function failing(Model $m): bool { return !empty($m->x['bad']) && ($this->s->depth || $this->s->pending); }
    public function op_dump(Coll $c, array $a, Ctx $x): void { if (!$this->cached($c->m, -1) || $this->failing($c->m) || !empty($c->m->x["bad"]) && $a[0] % 5 === 4) return; parent::op_dump($c, $a, $x); }
    public function op_eq(Coll $c, array $a, Ctx $x): void { if (!$this->cached($c->m, -1) || $this->failing($c->m)) return; $d = $this->s->slot($a[0]); if ($d->f instanceof CachedFam && (!$this->cached($d->m, -1) || $this->failing($d->m))) return; parent::op_eq($c, $a, $x); }
    public function op_prop(Coll $c, array $a, Ctx $x): void { if (!$this->cached($c->m, -1) || $this->failing($c->m)) return; parent::op_prop($c, $a, $x); }
    public function op_keyat(Coll $c, array $a, Ctx $x): void { $this->at($c, $a, $x, true); }
    public function op_valueat(Coll $c, array $a, Ctx $x): void { $this->at($c, $a, $x, false); }
    private function at(Coll $c, array $a, Ctx $x, bool $key): void {
        $n = $c->m->n(); $i = $this->s->offset($a[0], $n); $ok = $i >= 0 && $i < $n;
        $this->fetch($c, $x, $ok ? $i : self::ALL, $ok ? ['v', $key ? $c->m->K[$i] : $c->m->V[$i]] : ['e', 'RuntimeException'], $key ? fn() => $c->o->keyAt($i) : fn() => $c->o->valueAt($i));
    }
    public function op_idx(Coll $c, array $a, Ctx $x): void {
        $key = $a[2] % 2 === 0; $L = $key ? $c->m->K : $c->m->V; $v = $this->needle($c, $L, $a, $key); $p = $this->pos($L, $this->s->m($v));
        if ($p === null && !empty($c->m->x['bad'])) return;
        $this->search($c, $x, $p, ['v', $p], $key ? fn() => $c->o->indexOfKey($v) : fn() => $c->o->indexOfValue($v));
    }
    public function op_has(Coll $c, array $a, Ctx $x): void {
        $w = $a[2] % 3; $L = $w === 0 ? $c->m->K : $c->m->V; $v = $this->needle($c, $L, $a, $w === 0); $p = $this->pos($L, $this->s->m($v)); $meth = ['containsKey', 'containsValue', 'contains'][$w];
        if ($p === null && !empty($c->m->x['bad'])) return;
        $this->search($c, $x, $p, ['v', $p !== null], fn() => $c->o->$meth($v));
    }
    /** a search looks at every cached entry first and asks the source only while it has not found a match */
    private function search(Coll $c, Ctx $x, ?int $p, array $exp, callable $f): void { $this->fetch($c, $x, $p ?? self::ALL, $exp, $f); }
    public function op_foreach(Coll $c, array $a, Ctx $x): void {
        $n = $c->m->n(); $k = $a[0] % ($n + 2); $w = array_slice($this->pairs($c->m), 0, $k); if (!empty($c->m->x['bad'])) return;
        // breaking after k entries needs entry k to have been looked at only if the loop came round
        $this->fetch($c, $x, $k > $n ? self::ALL : max(0, $k - 1), ['v', $w], function () use ($c, $k) { $o = []; if ($k === 0) { foreach ($c->o as $kk => $v) { break; } return $o; } foreach ($c->o as $kk => $v) { $o[] = [$kk, $v]; if (count($o) >= $k) break; } return $o; });
    }
    public function op_new(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $n = $a[1] % 5 === 0 ? 0 : ($a[1] % 7 === 0 ? 9 + $a[1] % 20 : 1 + $a[1] % 8); [$ks, $vs] = $this->srcPairs($c, $a[2], $n); $m = new Model; $ss = new SrcState; $mp = [];
        foreach ($vs as $i => $v) $mp[] = [$s->m($ks[$i]), $s->m($v)];
        $this->build($c->cls, $mp, $m);
        if ($a[0] % 6 === 5) { parent::op_new($c, [intdiv($a[0], 6) * 6, $a[1], $a[2]], $x); return; } // an array is taken at once
        switch ($a[0] % 4) {
            case 0: $src = lazy_gen($ss, $ks, $vs); $m->x['gen'] = true; break;
            case 1: case 2: $src = new LazySrc($ss, $ks, $vs); break;
            default: $src = new LazyAgg($ss, $ks, $vs);
        }
        $m->x['src'] = $ss; $ks = $vs = $mp = [];
        $sc = $x->c; $x->c = null;
        [$st, $o] = $s->expect($x, ['ok'], fn() => new $c->cls($src)); $x->c = $sc; $src = null;
        if ($st !== 'ok') return;
        if ($n === 0 && $m->x['src']->ended) { $m->x['all'] = true; }
        $w = WeakReference::create($m); $m->x['src']->onFail = function () use ($w) { if ($m = $w->get()) { if (empty($m->x['fin'])) $this->failedNow($m); } };
        $this->install($c, $o, $m, $x); $this->lazy($m, $x);
    }
    public function op_newfrom(Coll $c, array $a, Ctx $x): void { // from another collection: pulled lazily, so only when it cannot change
        $d = $this->s->slot($a[0]); if (!$d || !$d->o || $d->f instanceof HeapFam || !$this->immutableColl($d)) return;
        [$ks, $vs] = $d->f->asSource($d); $s = $this->s; $m = new Model; $mp = []; foreach ($vs as $i => $v) $mp[] = [$s->m($ks[$i]), $s->m($v)]; $this->build($c->cls, $mp, $m); $ks = $vs = [];
        [$st, $o] = $s->expect($x, ['ok'], function () use ($c, $d) { $o = new $c->cls($d->o); $o->count(); return $o; });
        if ($st === 'ok') $this->install($c, $o, $m, $x);
    }
    private function immutableColl(Coll $d): bool { return $d->f instanceof CachedFam ? $this->cached($d->m, -1) && empty($d->m->x['bad']) : $d->f->immutable($d->cls); }
    public function asSource(Coll $d): array { if (!$this->immutableColl($d)) return [null, null]; return parent::asSource($d); }
    public function op_clone(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['e', 'Error'], fn() => clone $c->o); }
    public function op_reser(Coll $c, array $a, Ctx $x): void { if (!$this->cached($c->m, -1) || !empty($c->m->x['bad'])) { if (empty($c->m->x['bad'])) $this->whole($c, $x, $this->flat($c->m), fn() => $c->o->__serialize()); return; } parent::op_reser($c, $a, $x); }
    private function flat(Model $m): array { $r = []; foreach ($m->V as $i => $v) { $r[] = $m->K[$i]; $r[] = $v; } return $r; }
    public function op_setstate(Coll $c, array $a, Ctx $x): void { if (!$this->cached($c->m, -1) || !empty($c->m->x['bad'])) return; parent::op_setstate($c, $a, $x); }
    public function op_reunser(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['e', 'RuntimeException', 'Error'], fn() => $c->o->__unserialize([1, 2])); }
    /* iterators: position = index */
    public function itOps(Iter $it, string $op, Ctx $x): void {
        $m = $it->m; $s = $this->s; $ss = $this->ss($m);
        if ($it->st === 'end' && $it->o && !$it->busy && !$it->gen && empty($m->x['bad'])) { // past the end: stays there until rewound
            if ($op === 'rewind') { $it->st = 'at'; $it->uid = 0; }
            else {
                $it->busy = true; try { [$st, $v] = $s->call($x, function () use ($it, $op) { if ($op === 'next') $it->o->next(); return $it->o->valid(); }); if ($st === 'ok') $s->check($v === false, 'iterator', "{$x->name}: an ended iterator is valid again"); elseif ($st === 'exc') $s->check($v instanceof RuntimeException, 'iterator', "{$x->name}: " . get_class($v));
                    if ($op !== 'next') foreach (['current', 'key'] as $f) { [$st, $v] = $s->call($x, fn() => $it->o->$f()); $s->check($st === 'exc' && $v instanceof RuntimeException || $st === 'inj' || $st === 'ok' && $v === null, 'iterator', "{$x->name}: $f() of an ended iterator gives " . ($st === 'ok' ? short($s->m($v)) : get_class($v))); }
                } finally { $it->busy = false; }
                return;
            }
        }
        if ($it->st === 'end' || !$it->o || $it->busy) return;
        $i = $it->st === 'un' ? 0 : $it->uid; if ($op === 'rewind' && $it->gen) return; if ($op === 'rewind') $i = 0;
        if ($it->st !== 'un' && $op === 'next') $i++;
        if ($it->gen && $it->st !== 'un' && $op !== 'next') return;
        $tmp = $x->c && $x->c->m === $m ? $x->c : new Coll($it->cls, $this, $m, null);
        $first = $it->st === 'un'; $n = $m->n();
        $exp = $i < $n ? ['v', [$m->K[$i], $m->V[$i]]] : ['v', null];
        $busy = $ss && empty($m->x['fin']) && $ss->busy > 0 && !$this->cached($m, $i);
        if (!empty($m->x['bad']) && $i >= $n) { // ends or throws
            $it->busy = true; try { [$st, $v] = $s->call($x, function () use ($it, $op, $first) { if (!$first && $op === 'next') $it->o->next(); if ($op === 'rewind') $it->o->rewind(); return $this->itPeek($it); }); } finally { $it->busy = false; }
            if ($st === 'ok') $s->check($v === null, 'iterator', "{$x->name}: iterator yields an entry after the source failed"); elseif ($st === 'exc') $s->check($v instanceof RuntimeException, 'iterator', "{$x->name}: " . get_class($v));
            $it->end(); return;
        }
        $it->busy = true; $done = false; try { [$st, $v] = $this->fetch($tmp, $x, $i < $n ? $i : self::ALL, $exp, function () use ($it, $op, $first) { if (!$first && $op === 'next') $it->o->next(); if ($op === 'rewind') $it->o->rewind(); return $this->itPeek($it); }); $done = true; } finally { $it->busy = false; if (!$done) { if ($it->gen) $it->end(); else { $it->st = 'at'; $it->uid = $i; } } }
        if ($st === 'ok') { if ($v === null) { $it->end(); } else { $it->st = 'at'; $it->uid = $i; $it->hold = $it->gen ? [$s->m($v[0]), $s->m($v[1])] : []; } }
        else { // exception from the source, or refused while it runs
            if ($it->gen) { $it->end(); } else { $it->st = 'at'; $it->uid = $i; }
        }
    }
    public function op_it_full(Coll $c, array $a, Ctx $x): void { $it = $this->it($c, $a[0]); if (!$it) return; $lim = $c->m->n() + 3; while ($it->st !== 'end' && $it->o && !$it->busy && --$lim >= 0) { $this->itOps($it, 'next', $x); if ($x->thrown) return; if ($this->ss($c->m) && $this->ss($c->m)->busy) return; } }
}

/* EmptySequence, EmptyMap, EmptySet singletons. */
final class EmptyFam extends Fam {
    const CLS = ['Teds\EmptySequence', 'Teds\EmptyMap', 'Teds\EmptySet'];
    public function ops(string $cls): array { return ['count' => [1, 'read'], 'values' => [1, 'read'], 'toarray' => [1, 'read'], 'jsonser' => [1, 'read'], 'foreach' => [1, 'read'], 'emut' => [4, 'mut'], 'eread' => [4, 'read'], 'edup' => [1, 'ser'], 'eit' => [1, 'iter'], 'gc' => [0.3, 'gc'], 'fn' => [1, 'fn']]; }
    public function build(string $cls, array $pairs, Model $m): ?string { return null; }
    public function itMatch(Model $m, int $i, mixed $k, mixed $v): bool { return false; }
    public function immutable(string $cls): bool { return true; }
    public function verify(Coll $c): void { $s = $this->s; $s->check($c->o->count() === 0 && $c->o->values() === [] && $c->o->isEmpty() && $c->o->toArray() === [] && $c->o->jsonSerialize() === [] && !$c->o->contains(null) && count($c->o) === 0, 'state', "{$c->cls} is not empty"); $s->check($c->o === $c->cls::INSTANCE, 'state', "{$c->cls} is not the singleton"); }
    public function op_toarray(Coll $c, array $a, Ctx $x): void { $this->s->expect($x, ['v', []], fn() => $c->o->toArray()); }
    public function op_emut(Coll $c, array $a, Ctx $x): void {
        $v = $this->s->val($a[1]); $k = $this->s->val($a[2]); $E = ['e', 'RuntimeException', 'TypeError', 'Error']; $o = $c->o;
        $seq = [fn() => $o->push($v), fn() => $o->push($v, $v), fn() => $o->pop(), fn() => $o->pushFront($v), fn() => $o->unshift($v), fn() => $o->popFront(), fn() => $o->shift(), fn() => $o->insert(0, $v), fn() => $o->insert(1, $v), fn() => $o->set(0, $v), fn() => $o->offsetSet(0, $v), fn() => $o->offsetSet(null, $v), function () use ($o, $v) { $o[] = $v; }, function () use ($o, $v) { $o[0] = $v; }, function () use ($o) { unset($o[0]); }, fn() => $o->offsetUnset(0), function () use ($o) { $r = &$o[0]; $r = 1; }, function () use ($o) { $o[0][] = 1; }];
        $map = [fn() => $o->offsetSet($k, $v), function () use ($o, $v, $k) { $o[$k] = $v; }, function () use ($o, $v) { $o[] = $v; }, function () use ($o, $k) { $r = &$o[$k]; $r = 1; }, function () use ($o, $k) { $o[$k][] = 1; }];
        $set = [fn() => $o->add($v)];
        $all = [function () use ($o) { foreach ($o as &$q) { $q = 1; } }, function () use ($o, $v) { $o->dyn = $v; }, fn() => clone $o, fn() => new ($c->cls), fn() => $c->cls::__set_state([$v])];
        $fs = array_merge($c->cls === 'Teds\EmptySequence' ? $seq : ($c->cls === 'Teds\EmptyMap' ? $map : $set), $all); $i = $a[0] % count($fs); $x->name .= ":$i";
        $this->s->expect($x, $E, $fs[$i]);
    }
    public function op_eread(Coll $c, array $a, Ctx $x): void {
        $v = $this->s->val($a[1]); $o = $c->o; $OOB = ['e', 'RuntimeException'];
        $com = [[['v', null], fn() => $o->clear()], [['v', false], fn() => $o->contains($v)]];
        $seq = [[$OOB, fn() => $o->get(0)], [$OOB, fn() => $o->get(-1)], [$OOB, fn() => $o->first()], [$OOB, fn() => $o->last()], [$OOB, fn() => $o[0]], [['v', 'd'], fn() => $o[0] ?? 'd'], [['v', false], fn() => isset($o[0])], [['v', true], fn() => empty($o[0])], [['v', false], fn() => $o->offsetExists(0)], [['v', false], fn() => $o->containsKey(0)], [['v', null], fn() => $o->indexOf($v)], [$OOB, fn() => $o->offsetGet(0)], [['e', 'TypeError'], fn() => $o->offsetGet([])], [['e', 'TypeError'], fn() => $o['x']], [['e', 'TypeError'], fn() => $o->offsetExists('x')], [['v', false], fn() => isset($o[1][2])], [['v', false], fn() => isset($o['1'])], [['v', false], fn() => $o->offsetExists(true)]];
        $d = $this->s->val($a[2]); $map = [[$OOB, fn() => $o->get($v)], [['v', $this->s->m($d)], function () use ($o, $v, &$d) { $q = $d; $d = null; return $o->get($v, $q); }], [['v', 'd'], fn() => $o[$v] ?? 'd'], [['v', false], fn() => $o->containsKey($v)], [['v', []], fn() => $o->keys()], [['v', false], fn() => $o->offsetExists($v)], [['v', true], fn() => empty($o[$v])], [$OOB, fn() => $o[$v]], [['v', null], fn() => $o->offsetGet($v)], [['v', false], fn() => isset($o[$v][2])]];
        $set = [[['v', false], fn() => $o->remove($v)]];
        $fs = array_merge($com, $c->cls === 'Teds\EmptySequence' ? $seq : ($c->cls === 'Teds\EmptyMap' ? $map : $set)); $i = $a[0] % count($fs); $x->name .= ":$i";
        $this->s->expect($x, $fs[$i][0], $fs[$i][1]);
        if ($c->cls === 'Teds\EmptySequence') { $n = 0; [$st, $r] = $this->s->call($x, fn() => [$o->map(function ($q) use (&$n) { $n++; return $q; }), $o->filter(), $o->filter(function ($q) use (&$n) { $n++; return true; })]); if ($st === 'ok') { foreach ($r as $q) $this->s->check(count($q) === 0, 'result', "{$x->name}: map/filter of the empty sequence is not empty"); $this->s->check($n === 0, 'result', "{$x->name}: callback ran on an empty sequence"); } }
    }
    public function op_edup(Coll $c, array $a, Ctx $x): void { [$st, $r] = $this->s->expect($x, ['ok'], fn() => unserialize(serialize($c->o))); if ($st === 'ok') $this->s->check($r === $c->o, 'result', "{$x->name}: not the same singleton"); }
    public function op_eit(Coll $c, array $a, Ctx $x): void { $o = $c->o; $this->s->expect($x, ['v', false], function () use ($o) { $o->rewind(); return $o->valid(); }); foreach (['current', 'key'] as $m) { [$st, $v] = $this->s->call($x, fn() => $o->$m()); $this->s->check($st === 'exc' && $v instanceof RuntimeException || $st === 'ok' && $v === null, 'iterator', "{$x->name}: $m()"); } $this->s->call($x, fn() => $o->next()); }
    public function op_gc(Coll $c, array $a, Ctx $x): void { $this->s->gc(); }
}
