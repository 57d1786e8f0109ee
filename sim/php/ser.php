<?php
/* Durable state: checkpoints on a simulated disk, restore (also after a process restart), damaged bytes. */
trait SerOps {
    /** model of a collection taken over from its observed contents; null or a complaint */
    public function adopt(Coll $c): ?string {
        $s = $this->s; $o = $c->o; $m = new Model; $c->m = $m;
        if ($this instanceof MapFam) { $m->K = $s->m($o->keys()); $m->V = $s->m($o->values()); }
        elseif ($this instanceof KvFam) { foreach ($o->toPairs() as [$k, $v]) { $m->K[] = $s->m($k); $m->V[] = $s->m($v); } }
        elseif ($this instanceof HeapFam) { $v = $s->m($o->values()); usort($v, fn($p, $q) => $c->cls === 'Teds\StrictMinHeap' ? scmp($p, $q) : scmp($q, $p)); $m->V = $v; $m->K = array_fill(0, count($v), null); }
        elseif ($this instanceof SetFam) { $m->K = $m->V = $s->m($o->values()); }
        else { $m->V = $s->m($o->values()); $m->K = array_fill(0, count($m->V), null); }
        foreach ($m->V as $_) $m->U[] = $s->uid();
        if (!array_is_list($m->V) || !array_is_list($m->K) || count($m->V) !== count($m->K)) return 'keys and values do not match';
        if ($this instanceof KeyedFam) {
            if ($this->isHash($c->cls)) { $seen = []; foreach ($m->K as $k) { $f = ifp($k); if (isset($seen[$f])) return 'duplicate key ' . short($k); $seen[$f] = 1; } }
            else for ($i = 1; $i < count($m->K); $i++) { if (scmp($m->K[$i - 1], $m->K[$i]) >= 0) return 'keys ' . short($m->K[$i - 1]) . ' and ' . short($m->K[$i]) . ' are not in order'; }
        }
        if ($this instanceof SeqFam || $this instanceof SetFam) foreach ($m->V as $v) { if (!$this->ok($c->cls, $v)) return 'element of illegal type ' . short($v); }
        $it = []; if (!($this instanceof HeapFam)) { foreach ($o as $k => $v) { $it[] = [$s->m($k), $s->m($v)]; if (count($it) > count($m->V)) return 'iteration does not end'; } if (count($it) !== count($m->V)) return 'iteration gives ' . count($it) . ' entries of ' . count($m->V); foreach ($it as $i => [$k, $v]) if (!$this->itMatch($m, $i, $k, $v)) return "iteration entry $i differs"; }
        return null;
    }
    private function encode(Coll $c, int $fmt): array {
        if ($fmt === 1 && method_exists($c->cls, 'serialize')) return [1, $c->o->serialize()];
        if ($fmt === 2 && $c->cls !== 'Teds\LowMemoryVector') { $d = var_export($c->o, true); return [2, $d]; }
        return [0, serialize($c->o)];
    }
    private function decode(string $cls, int $fmt, string $b): mixed {
        switch ($fmt) { case 1: return $cls::unserialize($b); case 2: Val::$map = []; try { return eval("return $b;"); } finally { Val::$map = []; } default: return unserialize($b, ['allowed_classes' => array_merge(['Val'], SeqFam::CLS, MapFam::CLS, SetFam::CLS, HeapFam::CLS, KvFam::CLS, CachedFam::CLS)]); }
    }
    private function durable(Coll $c): bool { // tokens cannot survive a restart; keep them off the disk
        $set = []; $this->s->reach([$c->m->K, $c->m->V], $set); if ($set) return false;
        return !($this instanceof EmptyFam);
    }
    public function op_ckpt(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; if (!$this->durable($c)) return;
        if ($this instanceof CachedFam && !empty($c->m->x['bad'])) return;
        if ($this instanceof CachedFam) { $st = null; $this->op_values($c, $a, $x); if (!empty($c->m->x['bad']) || $x->thrown || !$this->isDone($c)) return; }
        if ($x->script) return;
        $fmt = $a[0] % 4; if ($fmt === 3) $fmt = 0;
        [$st, $r] = $s->expect($x, ['ok'], fn() => $this->encode($c, $fmt));
        if ($st !== 'ok') return;
        $s->disk[$c->sid] = [$c->cls, $r[0], $r[1], serialize([$c->m->K, $c->m->V])]; $s->st('checkpoints'); $s->lg("{$x->name} fmt {$r[0]} " . strlen($r[1]));
    }
    public function isDone(Coll $c): bool { return true; }
    public function op_restore(Coll $c, array $a, Ctx $x): void { if (isset($this->s->disk[$c->sid])) $this->restoreFrom($c, $this->s->disk[$c->sid], $x); }
    /** restore a checkpoint into its slot and require the checkpointed contents */
    public function restoreFrom(Coll $c, array $e, Ctx $x): void {
        $s = $this->s; [$cls, $fmt, $b, $mb] = $e; [$K, $V] = unserialize($mb); if ($cls !== $c->cls) return;
        $sv = $x->script; $x->script = [];
        [$st, $o] = $s->expect($x, ['ok'], fn() => $this->decode($cls, $fmt, $b)); $x->script = $sv;
        if ($st !== 'ok') return;
        if (!is_object($o) || get_class($o) !== $cls) $s->fail('restore', "{$x->name}: restoring format $fmt gave " . get_debug_type($o));
        $t = new Coll($cls, $this, new Model, $o); $t->sid = $c->sid;
        $why = $this->adopt($t); if ($why !== null) $s->fail('restore', "{$x->name}: restored collection is inconsistent: $why");
        $same = $this instanceof HeapFam ? $this->bagOf($t->m->V) === $this->bagOf($V) : (fp($t->m->V) === fp($V) || $this instanceof KeyedFam && ifp($t->m->V) === ifp($V)) && ($this instanceof MapFam ? ifp($t->m->K) === ifp($K) : ($this instanceof KvFam ? fp($t->m->K) === fp($K) : true));
        if (!$same && $this instanceof KeyedFam && $this->objOrder($t->m->K, $t->m->V) === $this->objOrder($K, $V)) $same = true;
        if (!$same) $s->fail('restore', "{$x->name}: restored (format $fmt) " . short($t->m->K) . ' / ' . short($t->m->V) . ', was ' . short($K) . ' / ' . short($V));
        $this->verify($t); $s->st('restores');
        $t->o = null; $c->f->detach($c, $x); $c->o = $o; $c->m = $t->m; $s->lg("{$x->name} n=" . $c->m->n());
    }
    /** objects are ordered by their handle, which a restart does not preserve */
    private function objOrder(array $K, array $V): array { $kv = []; foreach ($V as $i => $v) $kv[] = ifp($K[$i] ?? null) . '=>' . ifp($v); $o = []; $r = []; foreach ($kv as $i => $q) { if ($this->hasObj($K[$i] ?? $V[$i])) $o[] = $q; else $r[] = $q; } sort($o); return [$r, $o]; }
    private function hasObj(mixed $v): bool { if (is_array($v)) { foreach ($v as $q) if ($this->hasObj($q)) return true; return false; } return is_object($v); }
    private function bagOf(array $v): string { $f = array_map('ifp', $v); sort($f); return implode(',', $f); }
    private function damage(string $b, int $r): string {
        $n = strlen($b); $k = $r % 13; $p = $n ? intdiv($r, 13) % $n : 0; $q = intdiv($r, 13 * 97);
        if (!$n) return chr($r & 255);
        switch ($k) {
            case 0: return substr($b, 0, $p);
            case 1: case 2: $b[$p] = chr(ord($b[$p]) ^ (1 << ($q % 8))); return $b;
            case 12: if (intdiv($q, 30) % 2) { $b = substr($b, 0, ($p & ~7) + 2); $n = strlen($b); $p = min($p, $n - 1); } // only whole blocks arrived; small counts
                $b[$q % 3 ? $n - 1 : $p] = chr([8, 8, 0, 7, 9, 16, 1, 8, 2, 15][intdiv($q, 3) % 10]); return $b;
            case 3: $b[$p] = chr([0, 255, 127, 128, 1, 48, 57, 45][$q % 8]); return $b;
            case 4: return substr($b, 0, $p) . substr($b, min($n, $p + 1 + $q % 4));
            case 5: return substr($b, 0, $p) . substr($b, max(0, $p - $q % 9));
            case 6: return $b . substr($b, $p, 1 + $q % 5);
            case 7: $e = min($n, $p + 8); for ($i = $p; $i < $e; $i++) $b[$i] = "\0"; return $b;
            case 8: return substr($b, $p) . substr($b, 0, $p);
            case 9: case 10: // a stale block: a few bytes from elsewhere in the file
                $l = min([1, 1, 1, 2, 3, 4, 5, 7][$q % 8], $n - $p); $d = min($n - $l, max(0, $k === 9 ? $p + $l : intdiv($q, 8) % $n)); return substr_replace($b, substr($b, $p, $l), $d, $l);
            default: // two neighbouring blocks written in the wrong order
                $l = 1 + $q % 6; if ($p + 2 * $l > $n) return strrev($b); return substr($b, 0, $p) . substr($b, $p + $l, $l) . substr($b, $p, $l) . substr($b, $p + 2 * $l);
        }
    }
    private function damageArr(array $d, int $r): array {
        $n = count($d); $k = $r % 16; $p = $n ? intdiv($r, 16) % $n : 0; $q = intdiv($r, 14 * 31); $s = $this->s; $keys = array_keys($d);
        switch ($k) {
            case 0: array_pop($d); return $d;
            case 1: if ($n) unset($d[$keys[$p]]); return $d;
            case 2: if ($n) $d[$keys[$p]] = $s->val($q, ['null', 'bool', 'small', 'int', 'fspec', 'str', 'arr', 'lstr']); return $d;
            case 3: $d['x'] = 1; return $d;
            case 4: return ['x' => 1] + $d;
            case 5: if ($n) $d[] = $d[$keys[$p]]; return $d;
            case 6: return array_reverse($d);
            case 7: return array_merge($d, $d);
            case 8: if ($n && is_string($d[$keys[$p]])) $d[$keys[$p]] = $this->damage($d[$keys[$p]], $q); return $d;
            case 9: foreach ($d as $i => $v) if (is_string($v)) $d[$i] = $this->damage($v, $q); return $d;
            case 10: foreach ($d as $i => $v) if (is_int($v)) { $d[$i] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, 255, PHP_INT_MAX, PHP_INT_MIN][$q % 14]; break; } return $d;
            case 11: $t = 5; $ref = &$t; $d[$n] = &$ref; return $d;
            case 12: $o = []; $j = 1; foreach ($d as $v) { $o[$j] = $v; $j += 3; } return $o;
            case 13: case 14: // one key is a string; what came before it must be released
                $o = []; $j = 0; foreach ($d as $i => $v) { if ($j === $p) $o["s$q"] = $v; else $o[$i] = $k === 14 && is_string($v) ? $v . str_repeat('y', 5) : $v; $j++; } return $o;
            default: return array_slice($d, $p, 1 + $q % 3);
        }
    }
    /** restore from damaged durable state */
    public function op_dmg(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; if (!$this->durable($c) || $this instanceof CachedFam && !$this->isDone($c)) return;
        $x->script = []; $x->c = null; $tries = 1 + $a[1] % 6; $r = $a[1];
        for ($t = 0; $t < $tries && $c->o; $t++) { $this->dmg1($c, [$a[0], $r, $a[2] >> $t], $x, $t === $tries - 1); $r = ($r * 1103515245 + 12345) & 0x3fffffff; }
    }
    private function dmg1(Coll $c, array $a, Ctx $x, bool $last): void {
        $s = $this->s; $how = $a[0] % 4; $cls = $c->cls; $o = null; $rounds = [1, 1, 2, 3][$a[2] % 4]; $cut = false; $s->st('fault_damaged_state');
        if ($how === 0) {
            $b = $a[1] % 3 === 0 && isset($s->disk[$c->sid]) && $s->disk[$c->sid][0] === $cls && $s->disk[$c->sid][1] === 0 ? $s->disk[$c->sid][2] : serialize($c->o); $b0 = $b;
            for ($i = 0, $r = $a[1]; $i < $rounds; $i++) { $b = $this->damage($b, $r); $r = ($r * 1103515245 + 12345) & 0x7fffffff; }
            // unserialize() itself leaks the name of a class it does not know when a syntax error follows it
            if (preg_match_all('/[OCE]:[^"]{0,20}"([^"]*)/s', $b, $mm)) foreach ($mm[1] as $nm) { if ($nm !== $cls && $nm !== 'Val') return; }
            $cut = strlen($b) < strlen($b0) && str_starts_with($b0, $b);
            [$st, $o] = $s->call($x, fn() => $this->decode($cls, 0, $b));
        } elseif ($how === 1 && method_exists($cls, 'serialize')) {
            $b0 = $b = $c->o->serialize(); for ($i = 0, $r = $a[1]; $i < $rounds; $i++) { $b = $this->damage($b, $r); $r = ($r * 1103515245 + 12345) & 0x7fffffff; }
            $cut = $b !== '' && $cls === 'Teds\ImmutableSortedStringSet' && strlen($b) < strlen($b0) && str_starts_with($b0, $b); // (the other binary formats have no length)
            [$st, $o] = $s->call($x, fn() => $cls::unserialize($b));
        } elseif ($how === 2) {
            $d = $this->stateArray($c) ?? []; for ($i = 0, $r = $a[1]; $i < $rounds; $i++) { $d = $this->damageArr($d, $r); $r = ($r * 1103515245 + 12345) & 0x7fffffff; }
            [$st, $o] = $s->call($x, fn() => $cls::__set_state($d)); $d = null;
        } else {
            $d = $c->o->__serialize(); for ($i = 0, $r = $a[1]; $i < $rounds; $i++) { $d = $this->damageArr($d, $r); $r = ($r * 1103515245 + 12345) & 0x7fffffff; }
            $raw = simx_raw($cls);
            [$st, $o] = $s->call($x, function () use ($raw, $d) { $raw->__unserialize($d); return $raw; }); $d = null;
            if ($st === 'exc') { // the half-restored object must still be harmless
                foreach ([fn() => count($raw), fn() => $raw->values(), fn() => var_export($raw, true), fn() => iterator_to_array($raw, false), fn() => clone $raw, fn() => serialize($raw)] as $f) { if ($this instanceof HeapFam && count($raw) > 1000) break; $s->call($x, $f); }
            }
            $raw = null;
        }
        $s->lg("{$x->name} how $how $st " . get_debug_type($o));
        if ($st === 'exc') { $s->st('damaged_rejected'); return; }
        if ($st !== 'ok' || !is_object($o) || get_class($o) !== $cls) { $s->st('damaged_rejected'); return; }
        if ($cut) $s->fail('restore', "{$x->name}: truncated state was restored without an error");
        $s->st('damaged_accepted');
        if (count($o) > 3000) return;
        $t = new Coll($cls, $this, new Model, $o); $t->sid = $c->sid; $why = $this->adopt($t);
        if ($why !== null) $s->fail('restore', "{$x->name}: damaged state was accepted as a $cls whose $why");
        $this->verify($t);
        if ($last && $a[2] % 2 && count($o) <= 200) { $t->o = null; $c->f->detach($c, $x); $c->o = $o; $c->m = $t->m; }
    }
}
/* Object graphs with cycles through collections and their iterators. */
trait CycOps {
    public function op_link(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; $toks = [];
        foreach ([$c->m->V, $c->m->K] as $L) foreach ($L as $v) if ($v instanceof Stub) $toks[] = $v;
        if (!$toks) return; $stub = $toks[$a[0] % count($toks)]; $t = $s->tok[$stub->id][0]->get(); if (!$t) $s->fail('lifetime', "token {$stub->id} is gone but still in {$c->cls}");
        $d = $a[2] % 2 ? $c : $s->slot($a[1]); if (!$d || !$d->o) return; if ($d->f instanceof EmptyFam) return;
        $how = intdiv($a[2], 2) % 5; if (($d->f instanceof HeapFam) && $how >= 2) $how = 0;
        $p = null; $m = $d->m; $h = [];
        switch ($how) {
            case 0: case 1: $p = $d->o; break;
            case 2: $p = gen_foreach($d->o); break; // (PHP's InternalIterator objects are opaque to the collector, foreach loops are not)
            case 3: $p = gen_foreach($d->o); if (!($d->f instanceof CachedFam) || $d->f->hasFirst($d)) { if ($p->valid() && $a[1] % 2 && (!($d->f instanceof CachedFam) || $d->f->isDone($d))) $p->next(); if ($p->valid()) $h = $s->m($p->current()); else $p = null; } break;
            default: $p = [1, ['c' => $d->o]]; break;
        }
        if ($p) $s->links[$stub->id] = [$m, $h]; else unset($s->links[$stub->id]); $s->st('cycles_linked');
        $s->call($x, function () use ($t, &$p) { $q = $p; $p = null; $t->p = $q; });
        $s->lg("{$x->name} {$stub->id} how $how");
    }
    public function op_unlink(Coll $c, array $a, Ctx $x): void {
        $s = $this->s; if (!$s->links) return; $id = array_keys($s->links)[$a[0] % count($s->links)]; unset($s->links[$id]); $t = isset($s->tok[$id]) ? $s->tok[$id][0]->get() : null; if (!$t) return;
        $s->call($x, function () use ($t) { $t->p = null; }); $s->lg("{$x->name} $id");
    }
}
