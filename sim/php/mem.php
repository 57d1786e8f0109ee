<?php
/* Storage over long histories (C19). One MemHist is one private collection driven through thousands of seeded operations
 * (several foreach loops in progress, sources and callbacks that throw, rejected arguments, collections run in between);
 * the allocator seam counts the bytes the collection owns and the bytes it ever asked for. */
final class MemStop extends Exception {}
final class MemHist {
    public object $o; public int $n = 0; public int $peak = 0; public int $own = 0; public int $work = 0; public int $traffic = 0; public int $ops = 0;
    public int $w = 1; public array $its = []; public array $pool = []; public int $next = 0; public string $last = ''; public int $reserved = 0; public bool $mixed = false; public int $flat = 0; public int $visits = 0; public array $kinds = [];
    public bool $plain = false; private array $itb = []; private int $r = 1; private string $k; private array $live = []; 
    /** bytes per entry of the plain representation, smallest storage */
    const E = ['Vector' => 16, 'Deque' => 16, 'IntVector' => 0, 'LowMemoryVector' => 0, 'BitVector' => 0.125, 'MutableIterable' => 32, 'StrictMinHeap' => 16, 'StrictMaxHeap' => 16,
        'StrictHashSet' => 32, 'StrictHashMap' => 40, 'StrictTreeSet' => 40, 'StrictTreeMap' => 56, 'StrictSortedVectorSet' => 16, 'StrictSortedVectorMap' => 32, 'SortedIntVectorSet' => 0];
    public function __construct(public string $cls, int $seed, public int $mode) {
        $this->k = substr($cls, 5); $this->plain = ($mode & 16) === 0; $this->r = $seed | 1; $this->pool = [null, true, false, 1.5, 'poolstr', [1, 2], new stdClass, -0.0];
        $b = simx_stat(4); $this->o = new $cls(); $this->own = simx_stat(4) - $b;
    }
    private function rnd(int $n): int { $this->r = ($this->r * 1103515245 + 12345) & 0x7fffffff; return ($this->r >> 8) % $n; }
    /** entry size that the documentation promises for what was stored so far */
    public function e(): float { $e = self::E[$this->k]; return $e ?: ($this->mixed ? 16 : $this->w); }
    private function val(): mixed {
        $k = $this->k;
        if ($k === 'BitVector') return $this->rnd(3) === 0;
        $m = $this->mode % 6;
        if ($k === 'LowMemoryVector' && $m >= 4) { if ($m === 4) return [true, false, null][$this->rnd(3)]; $this->w = 8; return $this->rnd(100) + 0.125; }
        if (self::E[$k] === 0 || $k === 'LowMemoryVector') { $m %= 4; $b = [8, 16, 32, 62][$m]; $this->w = max($this->w, [1, 2, 4, 8][$m]); return $this->rnd(1 << min($b - 1, 20)) * ($b > 21 ? 1 << ($b - 22) : 1) - $this->rnd(2) * (1 << ($b - 2)); }
        return !$this->plain && $this->rnd(4) === 0 ? $this->pool[$this->rnd(8)] : $this->rnd(1 << 20);
    }
    private function key(): mixed { return !$this->plain && $this->rnd(9) === 0 ? $this->pool[$this->rnd(8)] : ($this->mode % 2 ? $this->next++ : $this->rnd(max(8, $this->peak * 2 + 8))); }
    /** run one operation with the allocator watched; $work = entries it adds, removes or rewrites */
    private function go(string $m, int $work, mixed ...$a): void {
        $o = $this->o; $this->last = $m; $b = simx_stat(4); $t = simx_stat(5);
        switch ($m) { case '[]': $o[] = $a[0]; break; case '[k]': $o[$a[0]] = $a[1]; break; case 'unset': unset($o[$a[0]]); break; default: $o->{$m}(...$a); }
        $d = simx_stat(4) - $b; $t = simx_stat(5) - $t; $this->own += $d; $this->traffic += $t; $this->work += (int)ceil($work * $this->e());
    }
    /** one operation; $dir > 0 prefers growth */
    private function op(int $dir): void {
        $k = $this->k; $n = $this->n; $grow = $this->rnd(100) < 50 + $dir; $z = $this->rnd(1000);
        if ($z === 0) { $this->go('clear', $n + 1); $this->peak = $this->reserved = 0; $this->w = 1; return; }
        switch ($k) {
            case 'Vector': case 'Deque': case 'IntVector': case 'LowMemoryVector': case 'BitVector':
                if ($z < 8 && ($k === 'Vector' || $k === 'BitVector')) { $m = $grow ? $n + $this->rnd(20) : intdiv($n, 2); $this->go('setSize', abs($m - $n) + 1, $m, $k === 'BitVector' ? false : 5); }
                elseif ($z < 10 && $k === 'Vector') $this->go('shrinkToFit', $n + 1);
                elseif ($z < 12 && $k === 'Vector') { $this->reserved = max($this->reserved, $n + 30); $this->go('reserve', 2 * $n + 30, $n + 30); }
                elseif ($grow) { switch ($this->rnd(8)) {
                    case 0: $this->go('pushFront', 1, $this->val()); break;
                    case 1: $this->go('insert', 1, $this->rnd($n + 1), $this->val()); break;
                    case 2: $this->go('push', 3, $this->val(), $this->val(), $this->val()); break;
                    case 3: $this->go('[]', 1, $this->val()); break;
                    default: $this->go('push', 1, $this->val());
                } } elseif ($n) { switch ($this->rnd(6)) {
                    case 0: $this->go('popFront', 1); break;
                    case 1: $this->go('unset', 1, $this->rnd($n)); break;
                    case 2: $this->go('[k]', 1, $this->rnd($n), $this->val()); break;
                    case 3: $this->go('shift', 1); break;
                    default: $this->go('pop', 1);
                } }
                break;
            case 'MutableIterable':
                if ($z < 8) { $m = $grow ? $n + $this->rnd(20) : intdiv($n, 2); $this->go('setSize', abs($m - $n) + 1, $m); }
                elseif ($z < 10) $this->go('shrinkToFit', $n + 1);
                elseif ($grow) $this->go('push', 1, $this->key(), $this->val());
                elseif ($n) { if ($this->rnd(4) === 0) $this->go('setKeyAt', 1, $this->rnd($n), $this->key()); else $this->go('pop', 1); }
                break;
            case 'StrictMinHeap': case 'StrictMaxHeap':
                if ($grow) $this->go('add', 1, $this->val()); elseif ($n) $this->go($this->rnd(3) ? 'extract' : 'next', 1); break;
            case 'StrictHashSet': case 'StrictTreeSet': case 'StrictSortedVectorSet': case 'SortedIntVectorSet':
                if ($grow) { $v = $k === 'SortedIntVectorSet' ? $this->val() : $this->key(); $this->go('add', 1, $v); $this->live[] = $v; }
                elseif ($n) { if ($k !== 'StrictHashSet' && $this->rnd(3) === 0) $this->go($k === 'SortedIntVectorSet' || $this->rnd(2) ? 'pop' : 'popFront', 1); else $this->go('remove', 1, $this->pick()); }
                break;
            default:
                if ($grow) { $v = $this->key(); $this->go('[k]', 1, $v, $this->val()); $this->live[] = $v; }
                elseif ($n) { if ($k !== 'StrictHashMap' && $this->rnd(3) === 0) $this->go($this->rnd(2) ? 'pop' : 'popFront', 1); else $this->go('unset', 1, $this->pick()); }
        }
    }
    /** a key that is probably present: queue-like, stack-like or anywhere, by mode */
    private function pick(): mixed {
        $l = &$this->live; $c = count($l); if (!$c) return 1;
        if (intdiv($this->mode, 2) % 3 === 0) { $v = $l[$this->flat++] ?? 1; return $v; }
        if (intdiv($this->mode, 2) % 3 === 1) return array_pop($l);
        $i = $this->rnd($c); $v = $l[$i]; $l[$i] = $l[$c - 1]; array_pop($l); return $v;
    }
    /** narrowest documented width for these values */
    private function width(array $v): float {
        if ($this->k === 'BitVector') return 0.125;
        if (self::E[$this->k]) return self::E[$this->k];
        if (!$v) return 1;
        if (!is_int($v[0])) return is_float($v[0]) ? 8 : 1;
        $a = min($v); $b = max($v); foreach ([[1, 7], [2, 15], [4, 31]] as [$w, $q]) if ($a >= -(1 << $q) && $b < (1 << $q)) return $w;
        return 8;
    }
    private function pairs(): Generator { foreach ($this->o as $k => $v) yield $k => $v; }
    private function vals(): Generator { foreach ($this->o->values() as $v) yield $v; }
    /** something that must not leave anything behind */
    private function visit(int $z): ?string {
        $o = $this->o; $n = $this->n; $map = str_contains($this->k, 'Map') || $this->k === 'MutableIterable'; $heap = str_contains($this->k, 'Heap'); $cls = $this->cls; $r = null; $d = $v = $g = null;
        switch ($z) {
            case 0: $b = simx_stat(4); $d = clone $o; $q = simx_stat(4) - $b; if ($q > 300 + max($this->own, 2.6 * $this->e() * max(8, $n))) $r = "a clone of $n entries takes $q bytes"; break;
            case 1: $d = $o->values(); break;
            case 2: try { new $cls((function () { yield 1 => $this->val(); yield 2 => $this->val(); throw new MemStop; })()); } catch (MemStop) {} break;
            case 3: if (method_exists($o, 'map') && $n) { try { $o->map(function ($v) { if ($this->rnd(5) === 0) throw new MemStop; return $v; }); } catch (MemStop) {} } break;
            case 4: try { if (method_exists($o, 'push')) $o->push(...(self::E[$this->k] === 0 && $this->k !== 'LowMemoryVector' || $this->k === 'BitVector' ? ['x'] : [])); elseif (method_exists($o, 'add')) $o->add(); else $o->offsetGet(); } catch (Error) {} break;
            case 5: foreach ($o as $v) { if ($this->rnd(9) === 0) break; } break;
            case 6: gc_collect_cycles(); break;
            case 7: $d = serialize($o);
                if ($this->plain && in_array($this->k, ['IntVector', 'BitVector', 'SortedIntVectorSet', 'LowMemoryVector'], true)) { $w = $this->width($v = $o->values()); if ($this->k === 'LowMemoryVector' && $n && !is_int($v[0]) && !is_float($v[0])) $w = 1; if ($this->k === 'LowMemoryVector') $w = 0; if ($w && strlen($d) > 150 + 2.6 * $w * $n) $r = "serialize() of $n entries of $w bytes makes " . strlen($d) . ' bytes'; } break;
            default: // the same contents by another way
                if ($heap && $z > 8 || !$this->plain && $z === 8) break;
                $vs = $o->values(); $w = $this->width($vs); $c = max(8, $n);
                $b = simx_stat(4);
                switch ($z) {
                    case 8: $d = null; $ser = serialize($o); $b = simx_stat(4); $d = unserialize($ser); break;
                    case 9: $d = new $cls($map ? $this->pairs() : $this->vals()); break;
                    case 10: $d = new $cls($map ? $this->o : $vs); break;
                    case 11: $w = $map ? 32 : 16; $d = $map ? new Teds\ImmutableIterable($o) : new Teds\ImmutableSequence($o); break;
                    case 12: $w = 32; $g = $map ? $this->pairs() : $this->vals(); $d = new Teds\CachedIterable($g); $g = null; foreach ($d as $v); $d->count(); $v = null; break;
                }
                $q = simx_stat(4) - $b; if ($q > 800 + ($z === 8 ? 4.4 : 2.6) * $w * $c) $r = ['unserialize()', 'construction from a generator', 'construction', 'the immutable copy', 'the cached iterable'][$z - 8] . " of $n entries takes $q bytes";
                $vs = null;
        }
        return $r;
    }
    const VISITS = 13;
    const SHRINK = ['Vector', 'Deque', 'IntVector', 'LowMemoryVector', 'BitVector', 'MutableIterable', 'SortedIntVectorSet'];
    public function bounds(): ?string {
        $e = $this->e(); $p = max($this->peak, 8, $this->reserved);
        if ($this->own > 400 + 2.6 * $e * $p) return "owns {$this->own} bytes; it never held more than {$this->peak} entries of $e bytes since it was last emptied (now {$this->n})";
        if ($this->own > 400 + 5.5 * $e * max($this->n, 8, $this->reserved) && in_array($this->k, self::SHRINK, true)) return "owns {$this->own} bytes for {$this->n} entries of $e bytes";
        if ($this->traffic > 4000 + 6 * $this->work) return "asked for {$this->traffic} bytes in {$this->ops} operations that wrote {$this->work} bytes of entries";
        if ($this->own < 0) return "owns {$this->own} bytes";
        if (method_exists($this->o, 'capacity') && ($c = $this->o->capacity()) < $this->n) return "capacity() is $c with {$this->n} entries";
        return null;
    }
    /** @return ?string what was violated */
    public function phase(int $len, int $dir, int $cap, int $seed): ?string {
        $heap = str_contains($this->k, 'Heap'); $this->r = $seed | 1;
        for ($i = 0; $i < $len; $i++) {
            $z = $this->rnd(200);
            if ($z < self::VISITS) {
                if ($heap && ($z === 5 || $z === 3)) continue;
                if ($this->n > 300 && $this->rnd(4)) continue;
                $b = simx_stat(4); $m = $this->visit($z); $d = simx_stat(4) - $b; $this->visits++; $this->kinds[$z] = ($this->kinds[$z] ?? 0) + 1;
                if ($m !== null) return $m; if ($z === 6 && $d > 0 && $d <= 64) $this->own += $d; elseif ($d !== 0) return "kind $z of the operations that leave the collection alone left $d bytes behind (size {$this->n})"; continue;
            }
            if ($z < 24 && !$heap) {
                $j = $this->rnd(3); $b = simx_stat(4);
                if (!isset($this->its[$j])) { $it = $this->o->getIterator(); $it->valid(); $q = simx_stat(4) - $b; $this->its[$j] = $it; $this->itb[$j] = $q; $it = null; }
                elseif ($this->rnd($this->mode & 32 ? 40 : 3)) { if ($this->its[$j]->valid()) $this->its[$j]->next(); $this->own += simx_stat(4) - $b; }
                else { $this->its[$j] = null; $this->own += simx_stat(4) - $b + $this->itb[$j]; unset($this->its[$j]); }
                continue;
            }
            if (count($this->live) > 60000) { $this->live = array_slice($this->live, -20000); $this->flat = 0; }
            $this->op($this->n >= $cap ? -40 : $dir); $this->ops++;
            $this->n = $this->o->count(); if ($this->n > $this->peak) $this->peak = $this->n;
            if (($m = $this->bounds()) !== null) return "$m, after {$this->last}";
        }
        return null;
    }
    /** the last reference is given up: nothing may stay */
    public function end(): ?string {
        foreach (array_keys($this->its) as $j) { $b = simx_stat(4); $this->its[$j] = null; $this->own += simx_stat(4) - $b + $this->itb[$j]; } $b = simx_stat(4); $this->o = new stdClass; $d = $b - simx_stat(4) + 40; // (a stdClass object takes its place)
        return abs($d - $this->own) > 64 ? "freeing it gave back $d bytes, it owned {$this->own}" : null;
    }
    /** everything the engine prepares at the first use of this code is prepared before anything is measured */
    public static function warm(): void { foreach (['Vector', 'MutableIterable', 'StrictHashSet', 'IntVector'] as $k) { $h = new self("Teds\\$k", 1, 0); try { $h->phase(40, 40, 50, 7); for ($z = 0; $z < self::VISITS; $z++) $h->visit($z); $h->end(); } catch (Exception) {} } }
    /** one plan step */
    public static function step(Sim $s, int $slot, array $a): void {
        $cls = $s->cfg['slots'][$slot]; $md = $s->cfg['modes'][$slot];
        $h = $s->mem[$slot] ??= new self($cls, 1, $md);
        $len = [10, 60, 250][$a[0] % 3]; $dir = [40, -30, 0, 10, -10, 48][$a[1] % 6]; $cap = [12, 40, 150, 600, 1500][$a[2] % 5];
        $o0 = $h->ops; $v0 = $h->visits; $m = $h->phase($len, $dir, $cap, $a[3]);
        $s->st('ops', $h->ops - $o0); $s->st('mem_ops', $h->ops - $o0); $s->st('mem_visits', $h->visits - $v0); foreach ([2 => 'fault_throw', 3 => 'fault_throw', 4 => 'fault_rejected', 5 => 'fault_abandoned_foreach', 6 => 'fault_gc'] as $z => $f) if (isset($h->kinds[$z])) $s->st($f, $h->kinds[$z]); $h->kinds = [];
        $s->lg("#$slot:" . substr($cls, 5) . " phase len=$len dir=$dir cap=$cap: size {$h->n} peak {$h->peak} own {$h->own} bytes, asked for {$h->traffic}, wrote {$h->work}");
        $s->states[hash('xxh64', "$cls|{$h->n}|{$h->own}|{$h->peak}|" . count($h->its))] = 1;
        if ($m !== null) $s->fail('storage', "$cls: $m");
    }
    public static function finish(Sim $s): void {
        foreach ($s->mem as $i => $h) { $m = $h->end(); if ($m !== null) $s->fail('storage', "{$h->cls}: $m"); }
        $s->mem = [];
    }
}
