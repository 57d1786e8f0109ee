<?php
/* Large histories: one Bulk is one private collection (and sometimes a twin made from it) driven through thousands of
 * seeded operations next to a plain PHP array, so that sizes from a few hundred to tens of thousands are reached. Results are compared
 * operation by operation, the whole contents at the end of every phase. Sources that throw half-way, rejected arguments, abandoned loops
 * and an iteration in progress run in between. */
final class Bulk {
    public object $o; public array $m = []; public array $mv = []; public array $twin = []; public int $ops = 0; public int $peak = 0; public array $flt = [];
    private int $r = 1; private string $k; private int $fam; private int $next = 0; private int $cap = 100; private string $why = '';
    const SEQ = 0; const KV = 1; const MAP = 2; const SET = 3; const HEAP = 4;
    const F = ['Vector' => 0, 'Deque' => 0, 'IntVector' => 0, 'LowMemoryVector' => 0, 'BitVector' => 0, 'MutableIterable' => 1, 'StrictHashMap' => 2, 'StrictTreeMap' => 2, 'StrictSortedVectorMap' => 2, 'StrictHashSet' => 3, 'StrictTreeSet' => 3, 'StrictSortedVectorSet' => 3, 'SortedIntVectorSet' => 3, 'StrictMinHeap' => 4, 'StrictMaxHeap' => 4];
    public function __construct(public string $cls, public int $mode) { $this->k = substr($cls, 5); $this->fam = self::F[$this->k]; $this->o = new $cls; }
    private function rnd(int $n): int { $this->r = ($this->r * 1103515245 + 12345) & 0x7fffffff; $h = $this->r >> 8; if ($n > 1 << 20) { $this->r = ($this->r * 1103515245 + 12345) & 0x7fffffff; $h = $h << 20 ^ $this->r >> 8; } return $h % $n; }
    private function sorted(): bool { return str_contains($this->k, 'Tree') || str_contains($this->k, 'Sorted'); }
    private function int(): int {
        $w = $this->mode % 4; if ($this->rnd(3000) === 0) $w = $this->rnd(4);
        return match ($w) { 0 => $this->rnd(256) - 128, 1 => $this->rnd(65536) - 32768, 2 => $this->rnd(1 << 32) - (1 << 31), 3 => ($this->rnd(1 << 40) - (1 << 39)) * 8388593 };
    }
    public function val(): mixed {
        switch ($this->k) {
            case 'BitVector': return $this->rnd([2, 17, 300][$this->mode % 3]) === 0;
            case 'IntVector': case 'SortedIntVectorSet': return $this->int();
            case 'LowMemoryVector':
                $q = intdiv($this->mode, 4) % 5; if ($this->rnd(20000) === 0) return 'far';
                return match ($q) { 0, 1 => $this->int(), 2 => $this->rnd(1000) / 8, 3 => [true, false, null][$this->rnd(3)], 4 => $this->mixed() };
        }
        return match (intdiv($this->mode, 4) % 4) { 0 => $this->rnd(50), 1 => $this->int(), 2 => 'v' . $this->rnd(500), 3 => $this->mixed() };
    }
    private function mixed(): mixed { return match ($this->rnd(8)) { 0 => null, 1 => true, 2 => false, 3 => $this->rnd(40) / 4, 4 => 's' . $this->rnd(100), 5 => [$this->rnd(4), 'x'], 6 => str_repeat('y', $this->rnd(20)), 7 => $this->rnd(1000) - 500 }; }
    private function key(): mixed {
        if ($this->k === 'SortedIntVectorSet') return $this->int();
        return match ($this->mode % 6) { 0 => $this->next++, 1 => $this->rnd(2 * $this->cap), 2 => 'k' . $this->rnd(2 * $this->cap), 3 => $this->rnd(3) ? $this->rnd(2 * $this->cap) : $this->mixed(), 4 => -$this->next++ * 1024, 5 => $this->rnd(2) ? $this->rnd($this->cap) : $this->rnd($this->cap) / 2 };
    }
    private static function f(mixed $k): string { return is_int($k) ? "i$k" : (is_string($k) ? "s$k" : (is_float($k) ? 'f' . var_export($k, true) : (is_array($k) ? 'a' . serialize($k) : 'n' . var_export($k, true)))); }
    private function n(): int { return count($this->m); }
    private function bad(string $s): bool { $this->why = $s; throw new BulkBad($s); }
    private function eq(mixed $got, mixed $exp, string $what): void { if ($got !== $exp) $this->bad("$what gave " . short($got) . ', expected ' . short($exp) . " (size {$this->n()})"); }
    private function sortModel(): void {
        if (!$this->sorted()) return;
        if ($this->allInt) { asort($this->m); return; }
        uasort($this->m, scmp(...));
    }
    public bool $allInt = true;

    /* ---- one operation of a kind ---- */
    private function seq(int $z, int $cnt): void {
        $o = $this->o; $m = &$this->m;
        for ($i = 0; $i < $cnt; $i++) {
            $n = count($m); $q = $z === 9 ? $this->rnd(8) : $z; if ($n >= $this->cap && $q < 4) $q = 4 + $this->rnd(3); if (!$n && $q >= 4 && $q < 8) return; $this->ops++;
            switch ($q) {
                case 0: $v = $this->val(); if ($this->rnd(2)) $o->push($v); else $o[] = $v; $m[] = $v; break;
                case 1: $v = $this->val(); $o->pushFront($v); array_unshift($m, $v); break;
                case 2: $v = $this->val(); $p = $this->rnd($n + 1); $o->insert($p, $v); array_splice($m, $p, 0, [$v]); break;
                case 3: $c = 1 + $this->rnd([3, 20, 200][$this->rnd(3)]); $vs = []; for ($j = 0; $j < $c; $j++) $vs[] = $this->val(); $p = $this->rnd($n + 1); switch ($this->rnd(3)) { case 0: $o->push(...$vs); array_push($m, ...$vs); break; case 1: $o->insert($p, ...$vs); array_splice($m, $p, 0, $vs); break; case 2: $o->pushFront(...$vs); $m = array_merge(array_reverse($vs), $m); } break;
                case 4: $this->eq($o->pop(), array_pop($m), 'pop()'); break;
                case 5: $this->eq($o->popFront(), array_shift($m), 'popFront()'); break;
                case 6: $p = $this->rnd($n); unset($o[$p]); array_splice($m, $p, 1); break;
                case 7: $p = $this->rnd($n); $this->eq($o[$p], $m[$p], "[$p]"); $v = $this->val(); if ($this->rnd(2)) $o[$p] = $v; else $o->set($p, $v); $m[$p] = $v; break;
                case 8: if (!method_exists($o, 'setSize')) return; $c = $this->rnd(2) ? $n + $this->rnd(100) : $this->rnd($n + 1); $d = $this->val(); $o->setSize($c, $d); $m = $c > $n ? array_merge($m, array_fill(0, $c - $n, $d)) : array_slice($m, 0, $c); $i += 50; break;
            }
        }
    }
    private function kv(int $z, int $cnt): void {
        $o = $this->o; $m = &$this->m; $mv = &$this->mv;
        for ($i = 0; $i < $cnt; $i++) {
            $n = count($m); $q = $z > 3 ? $this->rnd(4) : $z; if ($n >= $this->cap && $q === 0) $q = 1; if (!$n && $q >= 1 && $q < 3) return; $this->ops++;
            switch ($q) {
                case 0: $o->push($k = $this->key(), $v = $this->val()); $m[] = $k; $mv[] = $v; break;
                case 1: $this->eq($o->pop(), [array_pop($m), array_pop($mv)], 'pop()'); break;
                case 2: $p = $this->rnd($n); $this->eq([$o->keyAt($p), $o->valueAt($p)], [$m[$p], $mv[$p]], "at $p"); if ($this->rnd(2)) $o->setKeyAt($p, $m[$p] = $this->key()); else $o->setValueAt($p, $mv[$p] = $this->val()); break;
                case 3: $c = $this->rnd(2) ? $n + $this->rnd(100) : $this->rnd($n + 1); $o->setSize($c); if ($c < $n) { $m = array_slice($m, 0, $c); $mv = array_slice($mv, 0, $c); } elseif ($c > $n) { $m = array_merge($m, array_fill(0, $c - $n, null)); $mv = array_merge($mv, array_fill(0, $c - $n, null)); } $i += 50; break;
            }
        }
    }
    private function dict(int $z, int $cnt): void {
        $o = $this->o; $m = &$this->m; $mv = &$this->mv; $set = $this->fam === self::SET; $q0 = $z;
        if ($z === 3 || $z === 4) { // from one end
            if (!method_exists($o, $z === 3 ? 'pop' : 'popFront')) $z = 2;
            else { $this->sortModel(); for ($i = 0; $i < $cnt && $m; $i++) { $this->ops++; $f = $z === 3 ? array_key_last($m) : array_key_first($m); $e = $set ? $m[$f] : [$m[$f], $mv[$f]]; $this->eq($z === 3 ? $o->pop() : $o->popFront(), $e, $z === 3 ? 'pop()' : 'popFront()'); unset($m[$f], $mv[$f]); } return; }
        }
        $lot = null; $li = 0; // keys to remove, in an order of its own
        for ($i = 0; $i < $cnt; $i++) {
            $n = count($m); $q = $z > 4 ? $this->rnd(3) : $z; if ($n >= $this->cap && $q === 0) $q = 2; $this->ops++;
            if ($q === 2) { if ($lot === null || $li >= count($lot)) { $lot = array_values($m); $li = 0; switch ($this->mode % 5) { case 0: break; case 1: $lot = array_reverse($lot); break; default: $s = 1 + 2 * $this->rnd(50); $l2 = []; $c = count($lot); for ($j = 0, $t = 0; $j < $c; $j++, $t = ($t + $s) % max(1, $c)) $l2[] = $lot[$t]; $lot = $l2; } } if (!$lot) return; $k = $lot[$li++]; }
            else $k = $this->key();
            $f = self::f($k); $has = isset($m[$f]) || array_key_exists($f, $m);
            if ($q === 1) { if ($set) $this->eq($o->contains($k), $has, 'contains(' . short($k) . ')'); else { $this->eq($o->containsKey($k), $has, 'containsKey(' . short($k) . ')'); $this->eq($o->get($k, '~'), $has ? $mv[$f] : '~', 'get()'); } continue; }
            if ($q === 0) { if (!is_int($k)) $this->allInt = false; if ($set) { $this->eq($o->add($k), !$has, 'add(' . short($k) . ')'); } else { $v = $this->val(); $o[$k] = $v; $mv[$f] = $v; } if (!$has) $m[$f] = $k; continue; }
            if ($set) { $r = $o->remove($k); if ($this->k !== 'SortedIntVectorSet' || $r) $this->eq($r, $has, 'remove(' . short($k) . ')'); } else unset($o[$k]);
            unset($m[$f], $mv[$f]); $this->gone[$f] = 1;
        }
    }
    private array $gone = [];
    private function heap(int $z, int $cnt): void {
        $o = $this->o; $m = &$this->m; $min = $this->k === 'StrictMinHeap';
        if ($z === 0) { for ($i = 0; $i < $cnt && count($m) < $this->cap; $i++) { $this->ops++; $o->add($v = $this->val()); $m[] = $v; } return; }
        usort($m, scmp(...)); if ($min) $m = array_reverse($m); // the top is last
        for ($i = 0; $i < $cnt; $i++) {
            $this->ops++;
            if ($z === 1 || $this->rnd(2) && $m) { if (!$m) return; if (scmp($o->top(), end($m)) !== 0) $this->bad('top() is ' . short($o->top()) . ' of ' . count($m)); $this->eq($o->extract(), array_pop($m), 'extract()'); }
            elseif (count($m) < $this->cap) { $v = $this->val(); $o->add($v); $a = 0; $b = count($m); while ($a < $b) { $c = ($a + $b) >> 1; if (($min ? scmp($m[$c], $v) > 0 : scmp($m[$c], $v) < 0)) $a = $c + 1; else $b = $c; } array_splice($m, $a, 0, [$v]); }
        }
    }
    /* ---- whole contents ---- */
    public function verify(?object $o = null): void {
        $o ??= $this->o; $n = count($this->m); if ($n > $this->peak) $this->peak = $n;
        $this->eq($o->count(), $n, 'count()'); $this->eq($o->isEmpty(), $n === 0, 'isEmpty()');
        if ($this->fam === self::HEAP) { $a = $o->values(); $b = $this->m; usort($a, scmp(...)); usort($b, scmp(...)); if ($a !== $b) $this->bad("values() differ from what was added ($n)"); return; }
        $this->sortModel(); $mv = []; foreach ($this->m as $f => $_) $mv[] = $this->mv[$f] ?? null; $m = array_values($this->m); $map = $this->fam === self::MAP || $this->fam === self::KV;
        $v = $o->values(); if ($v !== ($map ? $mv : $m)) $this->diff($v, $map ? $mv : $m, 'values()');
        if ($map) { $k = $o->keys(); if ($k !== $m) $this->diff($k, $m, 'keys()'); }
        $i = 0; $set = $this->fam === self::SET && $this->k !== 'SortedIntVectorSet';
        foreach ($o as $k => $v) { if ($i >= $n || $v !== ($map ? $mv[$i] : $m[$i]) || $k !== ($map || $set ? $m[$i] : $i)) $this->bad('the loop gives ' . short($k) . ' => ' . short($v) . " in place $i of $n"); $i++; }
        $this->eq($i, $n, 'number of steps of the loop');
        if (!$n) return;
        for ($j = 0; $j < 20; $j++) {
            $p = $j === 0 ? 0 : ($j === 1 ? $n - 1 : $this->rnd($n));
            switch ($this->fam) {
                case self::SEQ: $this->eq($o->get($p), $m[$p], "get($p)"); if ($j < 6) { if ($this->k !== 'BitVector') { $this->eq($o->indexOf($m[$p]), array_search($m[$p], $m, true), 'indexOf()'); $this->eq($o->contains($m[$p]), true, 'contains()'); } } break;
                case self::KV: $this->eq([$o->keyAt($p), $o->valueAt($p)], [$m[$p], $mv[$p]], "at $p"); if ($j < 4) $this->eq($o->indexOfKey($m[$p]), array_search($m[$p], $m, true), 'indexOfKey()'); break;
                case self::MAP: $this->eq($o[$m[$p]], $mv[$p], '[' . short($m[$p]) . ']'); $this->eq($o->containsKey($m[$p]), true, 'containsKey()'); break;
                case self::SET: $this->eq($o->contains($m[$p]), true, 'contains(' . short($m[$p]) . ')'); break;
            }
        }
        if (method_exists($o, 'first')) { $this->eq($o->first(), ($map ? $mv : $m)[0], 'first()'); $this->eq($o->last(), ($map ? $mv : $m)[$n - 1], 'last()'); }
        if (method_exists($o, 'debugIsBalanced')) $this->eq($o->debugIsBalanced(), true, 'debugIsBalanced()');
    }
    private function diff(array $got, array $exp, string $what): never {
        $i = 0; while ($i < count($got) && $i < count($exp) && $got[$i] === $exp[$i]) $i++;
        $this->bad("$what differ at $i of " . count($exp) . ' (got ' . count($got) . '): ' . short($got[$i] ?? null) . ', expected ' . short($exp[$i] ?? null)); exit;
    }
    private function src(array $m, array $mv, bool $fail): Generator { $i = 0; foreach ($m as $f => $k) { if ($fail && $i++ >= intdiv(count($m), 2)) throw new MemStop; if ($this->fam === self::MAP || $this->fam === self::KV) yield $k => $mv[$f]; else yield $f => $k; } }
    /** the same contents by another way, one of the two goes on as this collection, the other is watched */
    private function copy(int $z): void {
        $o = $this->o; $cls = $this->cls; $map = $this->fam === self::MAP || $this->fam === self::KV;
        switch ($z % 9) {
            case 0: case 1: $d = clone $o; break;
            case 2: $d = unserialize(serialize($o)); break;
            case 3: $d = new $cls($this->src($this->m, $this->mv, false)); break;
            case 4: $d = new $cls($map || $this->fam === self::HEAP ? $this->src($this->m, $this->mv, false) : $o); break;
            case 5: $d = new $cls($map ? $o : ($this->fam === self::HEAP ? clone $o : $o->values())); break;
            case 6: if (!$map || $this->fam === self::KV && false) { $d = clone $o; break; } $d = $cls::fromPairs($o->toPairs()); break;
            case 7: if (!method_exists($o, 'map')) { $d = clone $o; break; } $d = new $cls($o->map(fn($v) => $v)); break;
            case 8: $d = $cls::__set_state($map ? $o->toPairs() : $o->values()); break;
        }
        if (!$d instanceof $cls) $this->bad("copy of kind $z is a " . get_debug_type($d));
        $this->verify($d);
        if ($this->rnd(2)) { [$d, $this->o] = [$this->o, $d]; }
        $this->twin = [$d, $this->m, $this->mv, $this->allInt];
    }
    private function checkTwin(): void { if (!$this->twin) return; [$o, $m, $mv, $ai] = $this->twin; $s = [$this->m, $this->mv, $this->allInt]; $this->m = $m; $this->mv = $mv; $this->allInt = $ai; try { $this->verify($o); } catch (BulkBad $e) { throw new BulkBad('the other copy: ' . $e->getMessage()); } finally { [$this->m, $this->mv, $this->allInt] = $s; } }
    /** must change nothing */
    private function disturb(int $z): void {
        $o = $this->o; $cls = $this->cls;
        switch ($z % 4) {
            case 0: $this->flt['throw'] = ($this->flt['throw'] ?? 0) + 1; try { new $cls($this->src($this->m, $this->mv, true)); if ($this->m) $this->bad('the exception of a source was lost'); } catch (MemStop) {} break;
            case 1: if (!method_exists($o, 'map') || !$this->m) break; $this->flt['throw'] = ($this->flt['throw'] ?? 0) + 1; $c = $this->rnd(count($this->m)); try { $o->map(function ($v) use (&$c) { if ($c-- <= 0) throw new MemStop; return $v; }); $this->bad('the exception of a callback was lost'); } catch (MemStop) {} break;
            case 2: if (in_array($this->k, ['IntVector', 'BitVector'], true)) { $this->flt['rejected'] = ($this->flt['rejected'] ?? 0) + 1; $vs = []; for ($i = 0; $i < 40; $i++) $vs[] = $this->val(); $vs[] = 'x'; try { $o->push(...$vs); $this->bad('a bad value was taken'); } catch (TypeError) {} array_pop($vs); $c = $o->count() - count($this->m); if ($c < 0 || $c > 40) $this->bad("a rejected push changed the size by $c"); array_push($this->m, ...array_slice($vs, 0, $c)); } break;
            case 3: if ($this->fam === self::HEAP) break; $this->flt['abandoned_foreach'] = ($this->flt['abandoned_foreach'] ?? 0) + 1; $c = $this->rnd(count($this->m) + 1); foreach ($o as $_) if ($c-- <= 0) break; break;
        }
    }
    /** a loop over a map or set in progress while entries are added and removed: what stays is seen exactly once */
    private function walk(int $z, int $cnt): void {
        $it = (function ($o) { foreach ($o as $k => $v) yield $this->fam === self::MAP ? $k : $v; })($this->o); $this->flt['live_loop'] = ($this->flt['live_loop'] ?? 0) + 1;
        $this->gone = []; $stay = $this->m; $seen = []; $prev = null; $first = true;
        while (true) {
            if ($first) { $it->rewind(); $first = false; } else { $it->next(); } if (!$it->valid()) break;
            $k = $it->current(); $f = self::f($k); $seen[$f] = ($seen[$f] ?? 0) + 1; if (!array_key_exists($f, $this->m)) $this->bad('the loop gives ' . short($k) . ', which is not in it');
            if (array_key_exists($f, $stay)) { if ($this->sorted() && $prev !== null && scmp($prev[0], $k) >= 0) $this->bad('the loop gives ' . short($k) . ' after ' . short($prev[0])); $prev = [$k]; }
            if ($cnt > 0 && $this->rnd(4) === 0) { $c = 1 + $this->rnd(12); $cnt -= $c; $this->dict($this->rnd(3) ? 5 : $this->rnd(3), $c); $stay = array_diff_key($stay, $this->gone); }
        }
        foreach ($stay as $g => $k) if (($seen[$g] ?? 0) !== 1) $this->bad('the loop gave ' . short($k) . ' ' . ($seen[$g] ?? 0) . ' times, it was there all the time');
    }
    public function phase(array $a): ?string {
        $this->r = $a[3] | 1; $this->cap = $a[4]; if ($this->cap > 800 && ($this->fam === self::HEAP || $this->sorted() && !$this->allInt)) $this->cap = 800; if ($this->cap > 9000 && !str_contains($this->k, 'Hash') && !str_contains($this->k, 'Tree')) $this->cap = 9000; $z = $a[0] % 16; $cnt = [20, 150, 600, 2500][$a[1] % 4]; if ($this->cap > 10000) $cnt *= 8; if ($z > 1 && $this->fam === self::SEQ && $this->n() > 10000) $cnt = min($cnt, 600);
        $this->why = '';
        try {
            if ($z === 10) { $this->o->clear(); $this->m = $this->mv = []; $this->allInt = true; }
            elseif ($z === 11 || $z === 12) { if ($this->n() > 20000 && $this->fam !== self::SEQ) return null; $this->checkTwin(); $this->copy($a[2]); }
            elseif ($z === 13) $this->disturb($a[2]);
            elseif ($z >= 14 && ($this->fam === self::MAP || $this->fam === self::SET) && $this->n() < 1500) $this->walk($z, min($cnt, 600));
            else switch ($this->fam) {
                case self::SEQ: $this->seq([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 0, 0, 0, 0, 8, 9][$z], $cnt); break;
                case self::KV: $this->kv([0, 0, 0, 1, 2, 4, 4, 1, 0, 3, 0, 0, 0, 0, 4, 2][$z], $cnt); break;
                case self::HEAP: $this->heap([0, 0, 0, 0, 1, 1, 2, 2, 2, 0, 0, 0, 0, 0, 1, 2][$z], $cnt); break;
                default: $this->dict([0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 0, 0, 0, 0, 5, 5][$z], $cnt);
            }
            $this->verify(); if ($this->rnd(3) === 0) $this->checkTwin();
        } catch (BulkBad $e) { return $e->getMessage(); }
        return null;
    }
    public static function step(Sim $s, int $slot, array $a): void {
        $cls = $s->cfg['slots'][$slot]; $h = $s->mem[$slot] ??= new self($cls, $s->cfg['modes'][$slot]);
        $o0 = $h->ops; $a[4] = $s->cfg['cap']; $m = $h->phase($a);
        $s->st('ops', $h->ops - $o0); $s->st('bulk_ops', $h->ops - $o0); foreach ($h->flt as $f => $c) $s->st("fault_$f", $c); $h->flt = []; $s->stat['bulk_peak'] = max($s->stat['bulk_peak'] ?? 0, $h->peak);
        $s->lg("#$slot:" . substr($cls, 5) . ' bulk phase ' . ($a[0] % 16) . ": {$h->n()} entries " . hash('xxh64', serialize([$h->m, $h->mv])));
        $s->states[hash('xxh64', "$cls|" . serialize($h->m))] = 1;
        if ($m !== null) $s->fail('state', "$cls (large history, phase " . ($a[0] % 16) . "): $m");
    }
    public static function finish(Sim $s): void { foreach ($s->mem as $h) { try { $h->verify(); $h->checkTwin(); } catch (BulkBad $e) { $s->fail('state', "{$h->cls} (end of a large history): " . $e->getMessage()); } } $s->mem = []; }
}
final class BulkBad extends Exception {}
