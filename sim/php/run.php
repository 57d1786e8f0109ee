<?php
/* Executes one plan (or one phase of it, between simulated process crashes) in this process. */
final class Runner {
    public static ?Sim $sim = null; public static $out = null; public static bool $reported = false;
    public static function init(Sim $s, array $cfg): void {
        foreach ($cfg['slots'] as $i => $cls) {
            $f = $s->fams[$cls]; $m = new Model;
            $o = $f instanceof EmptyFam ? $cls::INSTANCE : new $cls([]);
            $c = new Coll($cls, $f, $m, $o); $c->sid = $i; $s->slots[] = $c;
        }
        foreach ($cfg['init'] ?? [] as $i => $a) { $c = $s->slots[$i] ?? null; if ($c && !($c->f instanceof EmptyFam)) $c->f->seedWith($c, $a); }
    }
    /** one pass over steps [$from, $to) */
    public static function pass(array $plan, int $from, int $to, array $disk, bool $trace): Sim {
        $s = new Sim($plan['cfg']); self::$sim = $s; $s->trace = $trace; $s->disk = $disk; $s->valN = $from * 1000;
        if (isset($plan['cfg']['modes'])) { self::memPass($s, $plan['steps']); return $s; }
        try {
            self::init($s, $plan['cfg']);
            if ($from > 0 || $disk) { // after a restart: only what was on disk survives
                foreach ($s->slots as $c) { if (isset($disk[$c->sid])) { $x = new Ctx; $x->name = "restart:#{$c->sid}:{$c->cls}"; $c->f->restoreFrom($c, $disk[$c->sid], $x); } }
                $s->st('restarts');
            }
            $n = min($to, count($plan['steps']));
            for ($i = $from; $i < $n; $i++) { $s->step = $i; $s->top($plan['steps'][$i][0], $plan['steps'][$i][1]); if ($s->viol) break; }
            if (!$s->viol && $to >= count($plan['steps'])) self::finish($s);
        } catch (Viol $e) {
        } catch (Throwable $e) { if (!$s->viol) $s->viol = ['kind' => 'harness-exception', 'msg' => get_class($e) . ': ' . $e->getMessage() . ' at ' . basename($e->getFile()) . ':' . $e->getLine() . "\n" . $e->getTraceAsString(), 'step' => $s->step]; }
        return $s;
    }
    /** storage histories: every task drives its own collection, one phase per step */
    private static function memPass(Sim $s, array $steps): void {
        gc_disable(); set_error_handler(static fn() => true); $k = count($s->cfg['slots']); $d = isset($s->cfg['cap']) ? Bulk::class : MemHist::class; if ($d === MemHist::class) MemHist::warm();
        try { foreach ($steps as $i => [$t, $st]) { $s->step = $i; $d::step($s, $t % $k, array_slice($st, 1, 4)); } $d::finish($s); }
        catch (Viol) {} catch (Throwable $e) { $s->viol ??= ['kind' => 'harness-exception', 'msg' => get_class($e) . ': ' . $e->getMessage() . ' at ' . basename($e->getFile()) . ':' . $e->getLine() . "\n" . $e->getTraceAsString(), 'step' => $s->step]; }
        restore_error_handler();
    }
    /** faults stop: every task must now finish within a bounded number of resumptions, everything must be released */
    private static function finish(Sim $s): void {
        foreach ($s->pending as $t => $task) {
            $lim = 60;
            while (isset($s->pending[$t])) { if (--$lim < 0) { $s->fail('progress', "task $t does not finish after its faults stopped"); } $task->resume(); if ($s->viol) return; if ($task->done()) unset($s->pending[$t]); $s->depth = 0; $s->cur = null; }
        }
        unset($task);
        foreach ($s->slots as $c) { if ($c->o) $c->f->verify($c); }
        if ($s->lifetime) { if ($s->cyc) { $s->gcCheck(); } else $s->lifetimeCheck(true); }
        $s->ending = true;
        foreach ($s->slots as $c) { foreach ($c->m->iters as $it) { $it->o = null; $it->hold = []; } $c->m->iters = []; $c->o = null; $c->m = new Model; }
        foreach ($s->orphans as $it) { $it->o = null; $it->m->iters = []; } $s->orphans = [];
        if ($s->cyc) { gc_collect_cycles(); gc_collect_cycles(); $s->links = []; }
        if ($s->lifetime) $s->lifetimeCheck(true);
    }
    public static function result(Sim $s): array {
        $s->stat['bit'] = 0; unset($s->stat['bit']);
        return ['v' => $s->viol, 'h' => $s->hash, 'st' => $s->stat, 'states' => array_keys($s->states), 'kn' => array_keys($s->known), 'log' => $s->log, 'disk' => $s->disk ? base64_encode(serialize($s->disk)) : ''];
    }
    /** whole child process */
    public static function child(array $plan, int $phase, string $disk64, bool $trace, $out): never {
        self::$out = $out; $cr = $plan['cfg']['crash'] ?? []; $N = count($plan['steps']);
        $from = $phase === 0 ? 0 : min($N, $cr[$phase - 1]); $to = isset($cr[$phase]) ? min($N, $cr[$phase]) : PHP_INT_MAX;
        $disk = $disk64 !== '' ? unserialize(base64_decode($disk64)) : [];
        if (!empty($plan['cfg']['oom'])) register_shutdown_function(self::onShutdown(...));
        if (empty($plan['cfg']['leak'])) {
            $s = self::pass($plan, $from, $to, $disk, $trace);
            self::emit(self::result($s));
            if (!empty($plan['cfg']['oom'])) { self::$reported = true; exit(0); } // full shutdown under the memory checker
            simx_exit(0);
        }
        $live = []; $res = null;
        for ($k = 0; $k < 5; $k++) {
            $s = self::pass($plan, $from, $to, $disk, $trace && $k === 0);
            if ($s->viol) { self::emit(self::result($s)); simx_exit(0); }
            if ($k === 0) $res = self::result($s);
            restore_error_handler();
            self::$sim = null; Sim::$i = null; foreach ($s as $key => $v) { if (is_array($v)) $s->$key = []; } $s = null;
            gc_collect_cycles(); gc_collect_cycles();
            $live[] = simx_stat(0);
        }
        $d1 = $live[3] - $live[2]; $d2 = $live[4] - $live[3];
        $res['st']['leak_runs'] = 1;
        if ($d1 > 0 && $d2 > 0) $res['v'] = ['kind' => 'leak', 'msg' => "repeating the same history leaves $d2 more memory blocks allocated each time (live blocks " . implode(',', $live) . ')', 'step' => -1];
        self::emit($res);
        simx_exit(0);
    }
    public static function emit(array $r): void { self::$reported = true; $b = json_encode($r, JSON_INVALID_UTF8_SUBSTITUTE); if ($b === false) $b = json_encode(['v' => ['kind' => 'harness-exception', 'msg' => json_last_error_msg(), 'step' => -1], 'h' => '', 'st' => [], 'states' => [], 'kn' => [], 'log' => [], 'disk' => '']); for ($o = 0; $o < strlen($b);) { $w = fwrite(self::$out, substr($b, $o)); if (!$w) break; $o += $w; } fflush(self::$out); fclose(self::$out); }
    /** after a simulated out-of-memory fatal error */
    public static function onShutdown(): void {
        while (ob_get_level()) ob_end_clean();
        if (self::$reported) return;
        $e = error_get_last(); $s = self::$sim;
        if (!$e || !str_contains($e['message'], '[simx')) { self::emit(['v' => ['kind' => 'abnormal-exit', 'msg' => 'PHP ended unexpectedly: ' . ($e['message'] ?? '?'), 'step' => $s?->step ?? -1]] + ['h' => '', 'st' => [], 'states' => [], 'kn' => [], 'log' => $s?->log ?? [], 'disk' => '']); return; }
        $s->st('fault_oom_fired'); if (str_contains($e['message'], 'big')) $s->st('fault_oom_big'); $s->lg('! out of memory: ' . $s->oomOp);
        $s->ending = true; $s->lifetime = false;
        try { Oom::check($s); } catch (Viol $v) {} catch (Throwable $t) { if (!$s->viol) $s->viol = ['kind' => 'oom', 'msg' => "after running out of memory in {$s->oomOp}: " . get_class($t) . ': ' . $t->getMessage() . ' ' . $t->getTraceAsString(), 'step' => $s->step]; }
        self::emit(self::result($s));
    }
}
/** What must hold for the collections after a memory-limit fatal error inside an operation. */
final class Oom {
    public static function check(Sim $s): void {
        foreach ($s->slots as $c) {
            if (!$c->o || $c->f instanceof EmptyFam) continue;
            if ($c->f instanceof CachedFam) { self::touch($s, $c); continue; }
            simx_unguard($c->o); // PHP's own leftovers, not the collection's
            $before = $s->snap[$c->sid] ?? null; $after = [$c->m->K, $c->m->V];
            [$rk, $rv] = self::read($s, $c);
            $s->check(count($c->o) === count($rv), 'oom', "{$c->cls}#{$c->sid}: after running out of memory in {$s->oomOp}: count() is " . count($c->o) . ' but ' . count($rv) . ' values');
            $ok = self::eq($c, $rk, $rv, $after); $all = array_map(fn($q) => $q[$c->sid] ?? null, $s->snaps); $all[] = $before;
            foreach ($all as $b) $ok = $ok || $b && (self::eq($c, $rk, $rv, $b) || self::between($c, $rk, $rv, $b, $after));
            if (!$ok) $s->fail('oom', "{$c->cls}#{$c->sid}: after running out of memory in {$s->oomOp}: contents " . short($rv) . ' are neither the old ' . short($before[1] ?? null) . ' nor the new ' . short($after[1]));
            self::touch($s, $c);
        }
        $s->st('oom_checks');
    }
    private static function read(Sim $s, Coll $c): array {
        $o = $c->o;
        $k = $c->f instanceof MapFam || $c->f instanceof KvFam ? $o->keys() : []; $v = $o->values(); simx_unguard($k); simx_unguard($v);
        return [$s->m($k), $s->m($v)];
    }
    private static function L(Coll $c, array $k, array $v): array { $r = []; $kv = $c->f instanceof MapFam || $c->f instanceof KvFam; foreach ($v as $i => $q) $r[] = ($kv ? ifp($k[$i] ?? null) . '=>' : '') . ifp($q); if ($c->f instanceof HeapFam) sort($r); return $r; }
    private static function eq(Coll $c, array $rk, array $rv, array $m): bool { return self::L($c, $rk, $rv) === self::L($c, $m[0], $m[1]); }
    /** part of the effect: everything common to before and after is there, nothing that is in neither, in order */
    private static function between(Coll $c, array $rk, array $rv, array $b, array $a): bool {
        $R = self::L($c, $rk, $rv); $B = self::L($c, $b[0], $b[1]); $A = self::L($c, $a[0], $a[1]);
        if (count($A) > count($B)) return self::subseq($B, $R) && self::subseq($R, $A);
        return self::subseq($A, $R) && self::subseq($R, $B);
    }
    private static function subseq(array $p, array $q): bool { $i = 0; $n = count($p); foreach ($q as $x) { if ($i < $n && $p[$i] === $x) $i++; } return $i === $n; }
    /** the collection can still be used and modified */
    private static function touch(Sim $s, Coll $c): void {
        $o = $c->o; $f = $c->f;
        if ($f instanceof CachedFam) { try { $o->keyAt(0); } catch (RuntimeException) {} return; }
        if ($f instanceof HeapFam) { $n = count($o); $o->add(5); $s->check(count($o) === $n + 1, 'oom', "{$c->cls}: add after out of memory"); while ($n-- >= 0) $o->extract(); return; }
        $n = 0; foreach ($o as $k => $v) { if (++$n > count($o)) $s->fail('oom', "{$c->cls}: iteration does not end"); }
        $s->check($n === count($o), 'oom', "{$c->cls}: iteration gives $n entries, count is " . count($o));
        if ($f instanceof MapFam) { $ks = $o->keys(); foreach ($ks as $k) { $s->check($o->containsKey($k), 'oom', "{$c->cls}: present key is not found"); } $o['__n'] = 1; $s->check($o['__n'] === 1, 'oom', "{$c->cls}: insert"); foreach ($ks as $k) unset($o[$k]); $s->check(count($o) === 1, 'oom', "{$c->cls}: count after removing all old keys is " . count($o)); $o->clear(); }
        elseif ($f instanceof SetFam) { if ($f->immutable($c->cls)) return; $vs = $o->values(); foreach ($vs as $k) { $s->check($o->contains($k), 'oom', "{$c->cls}: present value is not found"); } $nv = 987654321; $o->add($nv); $s->check($o->contains($nv), 'oom', "{$c->cls}: add"); foreach ($vs as $k) $o->remove($k); $s->check(count($o) === 1, 'oom', "{$c->cls}: count after removing all old values is " . count($o)); $o->clear(); }
        elseif ($f instanceof KvFam) { if ($f->immutable($c->cls)) return; $n = count($o); for ($i = 0; $i < 9; $i++) $o->push(1, $i); $s->check(count($o) === $n + 9, 'oom', "{$c->cls}: push"); while (count($o)) $o->pop(); }
        elseif ($f instanceof SeqFam) { if ($f->immutable($c->cls)) return; $n = count($o); $v = $c->cls === 'Teds\BitVector' ? true : 3; for ($i = 0; $i < 9; $i++) { $o->push($v); $o->pushFront($v); } $s->check(count($o) === $n + 18 && $o->first() === $v && $o->last() === $v, 'oom', "{$c->cls}: push"); while (count($o)) { $o->pop(); if (count($o)) $o->popFront(); } $o->push($v); $s->check($o->values() === [$v], 'oom', "{$c->cls}: reuse"); }
    }
}
