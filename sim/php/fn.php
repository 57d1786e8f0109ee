<?php
/* Teds\any/all/none/find/fold/includes_value/unique_values/binary_search over arrays, collections and arbitrary sources. */
final class FnSrc implements Iterator {
    public int $i = 0; public int $nexts = 0; public int $cur = 0; public int $rew = 0; public int $valids = 0;
    public function __construct(public array $vals) {}
    public function rewind(): void { $this->rew++; Sim::$i->ev('src'); $this->i = 0; }
    public function valid(): bool { $this->valids++; Sim::$i->ev('src'); return $this->i < count($this->vals); }
    public function current(): mixed { $this->cur++; Sim::$i->ev('src'); return $this->vals[$this->i]; }
    public function key(): mixed { Sim::$i->ev('src'); return $this->i; }
    public function next(): void { $this->nexts++; Sim::$i->ev('src'); $this->i++; }
}
trait FnOps {
    public function op_fn(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $which = $a[0] % 8; $shape = intdiv($a[0], 8) % 5; $lim = null; $fs = null; $coll = false;
        // what will be consumed
        if ($shape === 0 && !($this instanceof HeapFam) && !($this instanceof CachedFam)) { $it = $c->o; $vals = $c->m->V; $coll = true; }
        else {
            $n = $a[1] % 6 === 0 ? 0 : 1 + $a[1] % 9; $r = $a[2]; $real = [];
            for ($i = 0; $i < $n; $i++) { $r = ($r * 1103515245 + 12345) & 0x7fffffff; $real[] = $s->val($r >> 4); if ($i && ($r >> 3) % 5 === 0) $real[$i] = $real[($r >> 8) % $i]; }
            $vals = array_map(fn($q) => $s->m($q), $real);
            switch ($shape) { case 1: $it = new FnSrc($real); $fs = $it; break; case 2: $it = gen_src(array_keys($real), $real); break; case 3: $it = new Teds\Vector($real); break; default: $it = $real; if ($n && $a[2] % 3 === 0) { $it = []; foreach ($real as $i => $q) $it["k$i"] = $q; } if ($a[2] % 5 === 1) $it = arr_refs($it); elseif ($a[2] % 5 === 2) $it = arr_holes($it, $a[2] >> 5); }
            $real = [];
        }
        $n = count($vals); $v0 = $c->m->ver; $stop = intdiv($a[1], 7) % ($n + 2); $mode = intdiv($a[1], 60) % 3; $seen = []; $name = ['any', 'all', 'none', 'find', 'fold', 'includes_value', 'unique_values', 'binary_search'][$which]; $x->name = "Teds\\$name/" . ['coll', 'iter', 'gen', 'vec', 'arr'][$shape];
        $s->st("fn_$name");
        $cb = function ($v) use ($s, &$seen, $stop, $which, $mode) {
            $k = count($seen); $seen[] = $s->m($v); if ($k > 5000) throw new LogicException('too many');
            $s->ev('cb');
            $hit = $k === $stop;
            if ($which === 1) $hit = !$hit;
            return $hit ? [true, 1, 'x'][$mode] : [false, 0, null][$mode];
        };
        $nocb = $which <= 2 && $a[2] % 6 === 0;
        $m0 = $c->m; $same = fn() => !$coll || $m0->ver === $v0;
        $truthy = fn($v) => $v instanceof Stub || (bool)$v;
        switch ($which) {
            case 0: case 1: case 2:
                [$st, $r] = $s->call($x, fn() => $nocb ? ("Teds\\$name")($it) : ("Teds\\$name")($it, $cb));
                $want = null; $used = $n;
                if ($nocb) { foreach ($vals as $i => $v) { if ($truthy($v) !== ($which === 1)) { $used = $i + 1; break; } } $hit = $used < $n || ($n && $truthy($vals[$n - 1]) !== ($which === 1)); $want = $which === 0 ? $hit : !$hit; }
                else { $used = min($n, $stop + 1); $hit = $stop < $n; $want = $which === 0 ? $hit : !$hit; }
                $this->fnRes($x, $st, $r, $want, $seen, $nocb ? null : array_slice($vals, 0, $used), $same, $fs, $used, $hit, $stop, $which); break;
            case 3:
                $d = $s->val($a[2]); $md = $s->m($d); $two = $a[2] % 2;
                [$st, $r] = $s->call($x, fn() => $two ? Teds\find($it, $cb, $d) : Teds\find($it, $cb)); $r = $s->m($r);
                $used = min($n, $stop + 1); $hit = $stop < $n; if (!$same()) { if ($st === 'ok') { $h = count($seen) === $stop + 1; $s->check(fp($r) === fp($h ? $seen[$stop] : ($two ? $md : null)), 'result', "{$x->name}: result " . short($r) . ' is not what the callback chose'); } break; }
                $this->fnRes($x, $st, $r, $hit ? $vals[$stop] : ($two ? $md : null), $seen, array_slice($vals, 0, $used), $same, $fs, $used, $hit, $stop, $which); break;
            case 4:
                $d = $s->val($a[2]); $carry = $s->m($d); $bad = null;
                $fcb = function ($acc, $v) use ($s, &$seen, &$carry, &$bad, $mode) {
                    if (fp($s->m($acc)) !== fp($carry)) $bad = 'callback got carry ' . short($s->m($acc)) . ', the previous call returned ' . short($carry);
                    $seen[] = $s->m($v); if (count($seen) > 5000) throw new LogicException('too many');
                    $s->ev('cb');
                    $r = $mode === 0 ? $v : ($mode === 1 ? [count($seen), $v] : $s->val(count($seen) * 17)); $carry = $s->m($r); return $r;
                };
                [$st, $r] = $s->call($x, fn() => Teds\fold($it, $fcb, $d));
                if ($bad) $s->fail('result', "{$x->name}: $bad");
                if ($st === 'ok') { $s->check(fp($s->m($r)) === fp($carry), 'result', "{$x->name}: result " . short($s->m($r)) . ', last callback returned ' . short($carry)); if ($same()) $s->check(fp($seen) === fp($vals), 'result', "{$x->name}: callback saw " . short($seen) . ', elements are ' . short($vals)); }
                if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r) . ': ' . $r->getMessage());
                if ($st === 'inj') $s->check(count($seen) <= $n || !$same(), 'result', "{$x->name}: callback calls");
                $carry = null; break;
            case 5:
                $q = $n && $a[2] % 2 ? $s->r($vals[intdiv($a[2], 2) % $n]) : $s->val($a[2]); $mq = $s->m($q); if (has_nan($mq)) break; $f = ifp($mq); $p = $n; foreach ($vals as $i => $v) { if (ifp($v) === $f) { $p = $i; break; } }
                [$st, $r] = $s->call($x, fn() => Teds\includes_value($it, $q)); if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r));
                if ($st === 'ok' && $same()) { $s->check($r === ($p < $n), 'result', "{$x->name}: " . short($r) . ', expected ' . ($p < $n ? 'true' : 'false')); if ($fs) $this->srcUse($x, $fs, $p < $n ? $p + 1 : $n, $p < $n); }
                break;
            case 6:
                if ($this->nanIn($vals)) { $s->call($x, fn() => Teds\unique_values($it)); break; }
                $u = []; foreach ($vals as $v) $u[ifp($v)] ??= $v; $u = array_values($u);
                [$st, $r] = $s->call($x, fn() => Teds\unique_values($it)); if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r));
                if ($st === 'ok' && $same()) { $r = $s->m($r); $s->check(array_is_list($r) && ifp($r) === ifp($u), 'result', "{$x->name}: " . short($r) . ', expected ' . short($u)); }
                break;
            case 7: $it = null; $this->bsearch($a, $x, $vals); break;
        }
        $s->lg($x->name . ' ' . count($seen));
    }
    private function nanIn(array $v): bool { foreach ($v as $q) if (has_nan($q)) return true; return false; }
    private function fnRes(Ctx $x, string $st, mixed $r, mixed $want, array $seen, ?array $wantSeen, callable $same, ?FnSrc $fs, int $used, bool $hit, int $stop, int $which): void {
        $s = $this->s;
        if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r) . ': ' . $r->getMessage());
        if ($st === 'inj') { if ($wantSeen !== null && $same()) $s->check(count($seen) <= count($wantSeen) && fp($seen) === fp(array_slice($wantSeen, 0, count($seen))), 'result', "{$x->name}: callback saw " . short($seen)); return; }
        if (!$same()) { if ($wantSeen !== null) { $h = count($seen) === $stop + 1; $s->check(count($seen) <= $stop + 1, 'result', "{$x->name}: callback called again after the deciding element"); $s->check($r === ($which === 0 ? $h : !$h), 'result', "{$x->name}: result is not what the callback calls imply"); } return; }
        if (fp($r) !== fp($want)) $s->fail('result', "{$x->name}: returned " . short($r) . ', expected ' . short($want));
        if ($wantSeen !== null && fp($seen) !== fp($wantSeen)) $s->fail('result', "{$x->name}: callback saw " . short($seen) . ', expected ' . short($wantSeen));
        if ($fs) $this->srcUse($x, $fs, $used, $hit);
    }
    private function srcUse(Ctx $x, FnSrc $fs, int $used, bool $hit): void {
        $s = $this->s;
        $s->check($fs->rew === 1, 'result', "{$x->name}: source rewound {$fs->rew} times");
        $s->check($fs->cur === $used, 'result', "{$x->name}: source current() called {$fs->cur} times for $used elements");
        $s->check($fs->nexts === ($hit ? $used - 1 : $used), 'result', "{$x->name}: source advanced {$fs->nexts} times, needed " . ($hit ? $used - 1 : $used));
    }
    private function bsearch(array $a, Ctx $x, array $vals): void {
        $s = $this->s; $useKey = $a[2] % 3 === 0; $vals = array_values(array_filter($vals, fn($v) => is_int($v) || is_string($v) && !is_numeric($v))); if (!$vals && $a[1] % 2) return;
        $strs = $a[1] % 2 === 0; $vals = array_values(array_filter($vals, fn($v) => is_string($v) === $strs)); sort($vals); $vals = array_values(array_unique($vals)); $n = count($vals);
        $t = $n && $a[2] % 2 ? $vals[intdiv($a[2], 4) % $n] : ($strs ? 'm' : intdiv($a[2], 4) % 9 - 2);
        $arr = $useKey ? array_combine($vals, array_map(fn($i) => "v$i", array_keys($vals))) : ($a[2] % 5 === 0 ? array_combine(array_map(fn($i) => "k$i", array_keys($vals)), $vals) : $vals);
        if ($useKey && $vals && array_keys($arr) !== $vals) return;
        if (!$useKey && $a[2] % 7 < 3) $arr = $a[2] % 7 < 2 ? arr_holes($arr, $a[2] >> 5) : arr_refs($arr);
        $calls = 0; $cmp = $a[1] % 3 === 0 ? null : function ($p, $q) use ($s, &$calls) { $calls++; if ($calls > 200) throw new LogicException('too many'); $s->ev('cb'); return $p <=> $q; };
        $x->name = 'Teds\binary_search';
        [$st, $r] = $s->call($x, fn() => Teds\binary_search($arr, $t, $cmp, $useKey));
        if ($st === 'exc') $s->fail('result', "{$x->name}: " . get_class($r) . ': ' . $r->getMessage());
        if ($st !== 'ok') return;
        $p = array_search($t, $vals, true); $keys = array_keys($arr);
        $s->check(is_array($r) && ($r['found'] ?? null) === ($p !== false), 'result', "{$x->name}: " . json_encode($r) . ' for ' . json_encode($t) . ' in ' . json_encode($arr));
        if ($p !== false) $s->check($r['key'] === $keys[$p] && $r['value'] === $arr[$keys[$p]], 'result', "{$x->name}: found entry " . json_encode($r) . ' for ' . json_encode($t));
        else { $lt = 0; foreach ($vals as $v) if (($v <=> $t) < 0) $lt++; $s->check($lt === 0 ? $r['key'] === null : $r['key'] === $keys[$lt - 1], 'result', "{$x->name}: " . json_encode($r) . ' for absent ' . json_encode($t) . ' in ' . json_encode($arr)); }
        $s->check($calls <= 2 * (int)ceil(log($n + 2, 2)) + 2, 'result', "{$x->name}: $calls comparisons for $n entries");
    }
}
