<?php
/* Core of the simulator: values, tokens, scheduler, event (fault) dispatcher, oracles shared by all families. */

final class Viol extends Error { public string $kind = ''; }
final class InjEx extends Exception {}

/** Model stand-in for a live token object: the model never keeps real tokens alive. */
final class Stub { public function __construct(public int $id, public string $cls, public int $oid) {} }

/** Plain value object, compared by content (survives a restart). */
final class Val { public mixed $x = null; public function __construct(mixed $x) { $this->x = $x; } /** one object per exported value: var_export() writes every occurrence out */ public static array $map = []; public static function __set_state(array $a): Val { return self::$map[serialize($a['x'])] ??= new Val($a['x']); } }

/** Tracked value. Its destructor is both a lifetime observation and a re-entrancy point. */
class Tok {
    public mixed $p = null;
    public function __construct(public int $id) {}
    public function __destruct() { Sim::$i?->onDtor($this); }
}
class Tak extends Tok {}
class To extends Tok {}
class Tokk extends Tok {}

/** One in-flight operation: its fault script and what happened to it. */
final class Ctx {
    public array $script = []; public int $n = 0; public int $nd = 0; public bool $in = false; public bool $killed = false;
    public array $thrown = []; public bool $noticed = false; public int $depth = 0; public bool $mut = false; public string $name = '';
    public ?Coll $c = null; public int $oom = -1;
    /** runs when the error handler has returned: the operation goes on from the state that holds then */
    public ?Closure $post = null;
}

/** A collection under test together with its reference model. */
final class Coll {
    public ?object $o = null; public Model $m; public string $cls; public Fam $f; public int $sid = 0; public bool $root = true;
    public function __construct(string $cls, Fam $f, Model $m, ?object $o) { $this->cls = $cls; $this->f = $f; $this->m = $m; $this->o = $o; }
}

/** Reference model: ordered entries K (keys or null), V (values), U (unique entry ids). */
final class Model {
    public array $K = []; public array $V = []; public array $U = []; public array $iters = []; public int $ver = 0; public bool $loose = false; public string $sig = ''; public int $bagVer = -1; public string $bag = '';
    public ?object $src = null; public array $x = [];
    public function n(): int { return count($this->V); }
}

/** A live iterator (InternalIterator object, or a foreach loop suspended in a generator) and its cursor in the model. */
final class Iter {
    public string $st = 'un'; public int $uid = -1; public ?int $pu = null; public ?int $su = null; public int $endVer = -1;
    public ?object $o = null; public bool $gen = false; public Model $m; public Fam $f; public string $cls; public array $hold = []; public bool $busy = false;
    /** a finished foreach loop holds nothing (PHP keeps a finished generator's last value, so let go of it) */
    public function end(int $ver = -1): void { $this->st = 'end'; $this->endVer = $ver; $this->hold = []; if ($this->gen) $this->o = null; }
}

final class PeekStop extends Exception {}
/** takes the half-made object it is part of out of unserialize() */
final class Peek { public static ?object $got = null; public function __unserialize(array $d): void { self::$got = $d[0]; throw new PeekStop; } }
/** Iterator object source for constructors/functions: every call is a user-code point. */
class Src implements Iterator {
    public int $i = 0; public array $log = []; public int $next = 0; public int $rew = 0;
    public function __construct(public array $keys, public array $vals, public string $tag = 'src') {}
    public function rewind(): void { $this->rew++; Sim::$i->ev($this->tag); $this->i = 0; }
    public function valid(): bool { Sim::$i->ev($this->tag); return $this->i < count($this->vals); }
    public function current(): mixed { Sim::$i->ev($this->tag); $this->log[] = $this->i; return $this->vals[$this->i]; }
    public function key(): mixed { Sim::$i->ev($this->tag); return $this->keys[$this->i]; }
    public function next(): void { $this->next++; Sim::$i->ev($this->tag); $this->i++; }
}
class AggSrc implements IteratorAggregate {
    public function __construct(public array $keys, public array $vals) {}
    public function getIterator(): Iterator { Sim::$i->ev('src'); return new Src($this->keys, $this->vals); }
}
function gen_src(array $keys, array $vals) {
    foreach ($vals as $i => $v) { Sim::$i->ev('src'); yield $keys[$i] => $v; }
    Sim::$i->ev('src');
}
/** a generator yielding by reference whose variables change after each yield: takers must have copied */
function &gen_ref(array $keys, array $vals) {
    foreach ($vals as $i => &$v) { Sim::$i->ev('src'); yield $keys[$i] => $v; $v = 'stale'; }
    Sim::$i->ev('src');
}
/** a generator that keeps nothing it has handed out: the taker owns it */
function gen_give(array $keys, array $vals) { // in reverse order
    while ($vals) { Sim::$i->ev('src'); yield array_pop($keys) => array_pop($vals); }
    Sim::$i->ev('src');
}
/** array variants with the same elements: references (whose targets change after the call), holes */
function arr_refs(array $arr): array { foreach ($arr as $k => $_) { unset($t); $t = $arr[$k]; $arr[$k] = &$t; } unset($t); return $arr; }
function arr_holes(array $arr, int $r): array { $h = [];
    if (!array_is_list($arr)) { $q = []; $n = 0; foreach ($arr as $k => $v) { if (($r >> ($n % 20)) & 1) { $q["hole$n"] = 'hole'; $h[] = "hole$n"; } $q[$k] = $v; $n++; } foreach ($h as $k) unset($q[$k]); return $q; } $q = []; $n = 0; foreach ($arr as $i => $v) { if (($r >> ($i % 20)) & 1) { $q[] = 'hole'; $h[] = $n++; } $q[] = $v; $n++; } foreach ($h as $i) unset($q[$i]); return $q; }
function arr_spoil(mixed &$src): void { if (is_array($src)) foreach ($src as $k => $_) { if (is_array($src[$k])) arr_spoil($src[$k]); $src[$k] = 'stale'; } }
/** a value that is nearly, but not, the same */
function alike(mixed $v, int $r, bool $same = false): mixed {
    if (is_int($v)) { if ($r % 4 === 0 && !$same) return [(float)$v, (string)$v, "$v ", "0$v"][intdiv($r, 4) % 4]; $w = $v + (1 + intdiv($r, 16) % 3) * [256, 65536, 1 << 32, 1, -256, -65536, -(1 << 32), -1][intdiv($r, 4) % 8]; return is_int($w) ? $w : $v; }
    if (is_string($v)) return [$v . "\0", $v . ' ', substr($v, 0, -1), strrev($v), strtoupper($v), is_numeric($v) && !$same ? (float)$v : "$v.0"][$r % 6];
    if (is_float($v) && !$same) return is_finite($v) && abs($v) < 1e15 && $v == (int)$v ? [(int)$v, (string)$v][$r % 2] : (string)$v;
    if (is_bool($v) && !$same) return [(int)$v, (string)$v, null][$r % 3];
    if (is_array($v) && !$same && !has_nan($v)) { $w = $v; if ($r % 3 === 0 || !$w) $w[] = null; elseif ($r % 3 === 1) array_pop($w); else { $k = array_key_last($w); $w[$k] = is_object($w[$k]) ? null : alike($w[$k], intdiv($r, 3)); } return $w; }
    return $v;
}
function gen_foreach(object $c) { foreach ($c as $k => $v) { yield [$k, $v]; } }

function fp(mixed $v): string {
    switch (gettype($v)) {
        case 'NULL': return 'n';
        case 'boolean': return $v ? 't' : 'f';
        case 'integer': return "i$v";
        case 'double': return is_nan($v) ? 'dN' : 'd' . bin2hex(pack('E', $v));
        case 'string': return 's' . strlen($v) . ':' . $v;
        case 'array': $r = 'a' . count($v) . '{'; foreach ($v as $k => $x) { $r .= (is_int($k) ? "i$k" : 's' . strlen($k) . ':' . $k) . '=>' . fp($x) . ','; } return $r . '}';
        case 'object': return $v instanceof Stub ? 'o' . $v->id : ($v instanceof Tok ? 'o' . $v->id : ($v instanceof Val ? 'V' . fp($v->x) : 'O' . get_class($v) . '#' . spl_object_id($v)));
    }
    return '?';
}
/** identity fingerprint: equal iff === (with NAN equal to NAN, and 0.0 equal to -0.0) */
function ifp(mixed $v): string {
    if (is_float($v)) { return is_nan($v) ? 'dN' : ($v == 0.0 ? 'd0' : fp($v)); }
    if (is_array($v)) { $r = 'a' . count($v) . '{'; foreach ($v as $k => $x) { $r .= (is_int($k) ? "i$k" : 's' . strlen($k) . ':' . $k) . '=>' . ifp($x) . ','; } return $r . '}'; }
    return fp($v);
}
function has_nan(mixed $v): bool {
    if (is_float($v)) { return is_nan($v); }
    if (is_array($v)) { foreach ($v as $x) { if (has_nan($x)) return true; } }
    return false;
}
/** the documented stable order */
function scmp(mixed $a, mixed $b): int {
    static $rank = ['NULL' => 0, 'boolean' => 1, 'integer' => 3, 'double' => 3, 'string' => 4, 'array' => 5, 'object' => 6];
    $ta = gettype($a); $tb = gettype($b);
    $ra = $ta === 'boolean' && $a ? 2 : $rank[$ta]; $rb = $tb === 'boolean' && $b ? 2 : $rank[$tb];
    if ($ra !== $rb) return $ra <=> $rb;
    switch ($ra) {
        case 3:
            if ($ta === $tb) {
                if ($ta === 'integer') return $a <=> $b;
                $na = is_nan($a); $nb = is_nan($b);
                if ($na || $nb) return $na <=> $nb;
                return $a <=> $b;
            }
            if ($ta === 'double') return -scmp_int_float($b, $a);
            return scmp_int_float($a, $b);
        case 4: $r = strcmp($a, $b); return $r <=> 0;
        case 5:
            if (count($a) !== count($b)) return count($a) <=> count($b);
            $ka = array_keys($a); $kb = array_keys($b);
            foreach ($ka as $i => $k) {
                $l = $kb[$i];
                if (is_int($k) !== is_int($l)) return is_int($k) ? -1 : 1;
                if ($k !== $l) {
                    if (is_int($k)) return ($k < 0) !== ($l < 0) ? $l <=> $k : $k <=> $l; // (PHP orders integer array keys as unsigned)
                    if (strlen($k) !== strlen($l)) return strlen($k) <=> strlen($l);
                    return strcmp($k, $l) <=> 0;
                }
                $r = scmp($a[$k], $b[$l]);
                if ($r) return $r;
            }
            return 0;
        case 6:
            if ($a === $b) return 0;
            $ca = $a instanceof Stub ? $a->cls : get_class($a); $cb = $b instanceof Stub ? $b->cls : get_class($b);
            $r = strcmp($ca, $cb);
            if ($r) return $r <=> 0;
            return ($a instanceof Stub ? $a->oid : spl_object_id($a)) <=> ($b instanceof Stub ? $b->oid : spl_object_id($b));
    }
    return 0;
}
function scmp_int_float(int $i, float $d): int { // int before an equal float
    if (is_nan($d)) return -1;
    if ($d >= 9223372036854775808.0) return -1;
    if ($d < -9223372036854775808.0) return 1;
    $t = (int)floor($d);
    if ($i !== $t) return $i <=> $t;
    return -1; // equal, or d has a fraction above: int first either way
}
function short(mixed $v): string { $s = fp($v); return strlen($s) > 200 ? substr($s, 0, 200) . '…' : $s; }

final class Sim {
    public static ?Sim $i = null;
    public array $cfg; public array $mem = []; public array $slots = []; public array $orphans = []; public array $pending = [];
    public ?Ctx $cur = null; public array $tok = []; public int $tokN = 0; public int $uidN = 0;
    public ?array $viol = null; public string $hash = ''; public array $stat = []; public array $log = []; public bool $trace = false;
    public int $step = 0; public bool $ending = false; public array $known = []; public array $states = []; public int $depth = 0;
    public SplObjectStorage $objIds; public int $objN = 0; public array $fams = []; public bool $lifetime = true; public array $kinds = [];
    public int $opsDone = 0; public int $maxLen = 40; public $handlerPrev = null; public bool $bitInv = false; public int $newTok = 0;
    public array $orphanToks = []; public int $hashn = 0; public bool $cyc = false; public array $sinks = [];

    public function __construct(array $cfg) {
        self::$i = $this; $this->cfg = $cfg; $this->objIds = new SplObjectStorage;
        $this->kinds = $cfg['kinds']; $this->maxLen = $cfg['max'] ?? 40; $this->nofs = !in_array('fspec', array_merge($cfg['kinds'], $cfg['keys'] ?? []), true); $this->cyc = $cfg['cyc'] ?? false; $this->lifetime = $cfg['lifetime'] ?? true;
        foreach ([SeqFam::class, MapFam::class, SetFam::class, HeapFam::class, KvFam::class, CachedFam::class, EmptyFam::class] as $f) { $fam = new $f($this); foreach ($f::CLS as $k) $this->fams[$k] = $fam; }
        $this->bitInv = !(new Teds\BitVector([true]))->contains(true); $this->remInv = !(new Teds\SortedIntVectorSet([1]))->remove(1);
        set_error_handler(function ($no, $msg) { $q = simx_pause(true); try { $this->st('php_errors'); $x = $this->cur; if ($x) $x->noticed = true; $this->ev('handler'); if ($x && $x->post && !$x->killed) { $p = $x->post; $x->post = null; $p(); } } finally { simx_pause($q); } return true; });
    }
    public function st(string $k, int $n = 1): void { $this->stat[$k] = ($this->stat[$k] ?? 0) + $n; }
    public function lg(string $s): void {
        $this->hash = hash('xxh64', $this->hash . $s);
        if ($this->trace) { $this->log[] = str_repeat('  ', $this->depth) . $s; }
    }
    public function fail(string $kind, string $msg): never {
        if ($this->trace) $this->dumpIters();
        if (!$this->viol) { $this->viol = ['kind' => $kind, 'msg' => $msg, 'step' => $this->step]; $this->lg("VIOLATION $kind: $msg"); }
        $e = new Viol($msg); $e->kind = $kind; throw $e;
    }
    /** same values, strictly: -0.0 differs from 0.0, NAN is equal to NAN */
    public function same(array $real, array $model): bool { return $real === $model && $this->nofs || fp($real) === fp($model); }
    public bool $nofs = false;
    public function check(bool $ok, string $kind, string $msg): void { if (!$ok) { $this->fail($kind, $msg); } }

    /* ---- user-code points: here the scheduler and the fault injector act ---- */
    /** The simulator's own bookkeeping never runs out of memory (PHP leaves its arrays damaged then), only the code under test does. */
    public function ev(string $kind): void { $q = simx_pause(true); try { $this->point($kind); } finally { simx_pause($q); } }
    private function point(string $kind): void {
        $x = $this->cur;
        if (!$x || !$x->in || $x->killed || $this->ending || $this->viol || $this->killing) return;
        $n = $x->n++; $this->st("point_$kind");
        if ($x->thrown && ($kind === 'src' || $kind === 'cb')) $this->fail('exception-ignored', "{$x->name}: user code ($kind) was called again after user code had thrown inside the same operation");
        if ($kind === 'dtor' && isset($x->script[1000 + $x->nd++])) $n = 999 + $x->nd; // 1000+k: at the k-th destructor
        if (!isset($x->script[$n])) return;
        [$act, $arg] = $x->script[$n];
        unset($x->script[$n]);
        switch ($act) {
            case 'throw':
                $this->st('fault_throw_' . $kind); $this->lg("! throw at $kind#$n");
                $e = new InjEx("inj$n"); $x->thrown[] = $e; throw $e;
            case 'nest':
                if ($this->depth >= 3) return;
                $this->st('fault_reenter_' . $kind); $this->lg("! re-enter at $kind#$n");
                $this->depth++; $sv = $this->cur;
                try { $this->runStep($arg, $x); } finally { $this->depth--; $this->cur = $sv; }
                return;
            case 'susp':
                if (!Fiber::getCurrent() || !empty($this->noSuspend)) return;
                $this->st('fault_suspend_' . $kind); $this->lg("! suspend at $kind#$n");
                $d = $this->depth; $sv = $this->cur; simx_pause(false);
                try { Fiber::suspend(); } catch (FiberError) { $this->st('suspend_refused'); $this->lg('suspend refused'); }
                $this->depth = $d; $this->cur = $sv; simx_pause(true);
                return;
            case 'gc':
                $this->st('fault_gc_' . $kind); $this->lg("! gc at $kind#$n");
                $this->gc(); return;
            case 'oom':
                $this->st('fault_oom_arm'); simx_arm(1 + $arg); return;
        }
    }
    public int $noSuspend = 0; public int $valN = 0; public bool $killing = false; public bool $remInv = false; public array $links = []; public array $disk = []; public ?array $snap = null; public int $oomCarry = -1; public string $oomOp = '';
    public function gc(): void { $this->noSuspend++; $in = $this->cur?->in; try { gc_collect_cycles(); } finally { $this->noSuspend--; } }
    public function onDtor(Tok $t): void { $q = simx_pause(true); try { $this->dtor($t); } finally { simx_pause($q); } }
    public function onSrcDtor(): void { $q = simx_pause(true); try { if (!$this->noSuspend) $this->ev('srcdtor'); } finally { simx_pause($q); } }
    private function dtor(Tok $t): void {
        $r = $this->tok[$t->id] ?? null;
        if ($r) { $this->tok[$t->id][1]++; $this->st('tok_released'); }
        if ($this->noSuspend) { return; }
        $this->ev('dtor');
    }

    /* ---- values ---- */
    public function newTok(string $cls = 'Tok'): Tok {
        $t = new $cls($this->tokN++);
        $this->tok[$t->id] = [WeakReference::create($t), 0, new Stub($t->id, $cls, spl_object_id($t))];
        $this->st('tok_created');
        return $t;
    }
    public function liveToks(): array { $r = []; foreach ($this->tok as $id => $t) { if ($t[1] === 0 && ($o = $t[0]->get())) { $r[] = $id; } } return $r; }
    /** real -> model */
    public function m(mixed $v): mixed {
        if ($v instanceof Tok) { return $this->tok[$v->id][2]; }
        if (is_array($v)) { foreach ($v as $k => $x) { if (is_object($x) || is_array($x)) { $v[$k] = $this->m($x); } } return $v; }
        return $v;
    }
    /** model -> real (tokens must be alive) */
    public function r(mixed $v): mixed {
        if ($v instanceof Stub) { $o = $this->tok[$v->id][0]->get(); if (!$o) $this->fail('early-release', "token {$v->id} was released while still reachable"); return $o; }
        if (is_array($v)) { foreach ($v as $k => $x) { if (is_object($x) || is_array($x)) { $v[$k] = $this->r($x); } } return $v; }
        return $v;
    }
    /** value from a plan number; returns the real value (convert with m()) */
    public function val(int $r, ?array $kinds = null): mixed {
        $kinds ??= $this->kinds; $n = count($kinds); $k = $kinds[$r % $n]; $p = intdiv($r, $n);
        switch ($k) {
            case 'null': return null;
            case 'bool': return ($p & 1) === 1;
            case 'small': return $p % 6;
            case 'int': static $B = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, PHP_INT_MAX, PHP_INT_MIN, 9007199254740993, -9007199254740993];
                if ($p % 3 === 0) return intdiv($p, 3) % 200 - 100;
                return $B[intdiv($p, 3) % count($B)] + ($p % 3 === 1 ? 0 : 0);
            case 'i8': return $p % 256 - 128;
            case 'i16': return $p % 65536 - 32768;
            case 'i32': return $p % 4294967296 - 2147483648;
            case 'mid': return $p % 40;
            case 'float': return ($p % 12) / 2 - 2;
            case 'fspec': return [0.0, -0.0, NAN, INF, -INF, 1.0, 2.0, 1e30, 9223372036854775808.0, -9223372036854775808.0, 9007199254740992.0, 1.5][$p % 12];
            case 'num': return [1, 1.0, 0, 0.0, -1, -1.0, 9007199254740992, 9007199254740992.0, 9007199254740993, 9007199254740994.0, 9007199254740991, PHP_INT_MAX, PHP_INT_MAX - 1, PHP_INT_MAX - 512, 9223372036854774784.0, 9223372036854775808.0, PHP_INT_MIN, PHP_INT_MIN + 1, -9223372036854775808.0, -9223372036854777856.0, -9007199254740993, -9007199254740992.0, -9007199254740994.0, -9007199254740994, 4611686018427387904, 4611686018427387904.0, 4611686018427387905, -4611686018427387905, 0.5, 1.5, 2, -0.5][$p % 32];
            case 'arrs': $r = []; $ks = ['k', 'kk', 'j', 'a', "k\0", 'zzz']; for ($n = $p % 4, $p = intdiv($p, 4); $n > 0; $n--, $p = intdiv($p, 24)) { $v = [0, 1, 0.0, '0', 'a', 'b', null, [], [1], [0 => 'a'], [[2]], -5][$p % 12]; switch (intdiv($p, 12) % 4) { case 0: case 1: $r[] = $v; break; case 2: $r[$ks[intdiv($p, 48) % 6]] = $v; break; default: $r[intdiv($p, 48) % 5 - 2] = $v; } } return $r;
            case 'str': return ['', 'a', 'b', 'ab', "a\0b", 'Z', 'key', 'é'][$p % 8];
            case 'nstr': return ['0', '1', '2', '10', '01', '1.5', '-1', ' 1'][$p % 8];
            // values whose hashes are equal although they differ (each row), also nested
            case 'coll': static $C = [['Ez', 'FY'], ['EzEz', 'EzFY', 'FYEz', 'FYFY'], [null, 8310], [false, 8311], [true, 8312], [[], 8313], [0.0, 8315, -0.0], [NAN, 0xf8ff + 8315], ['a', (5381 * 33 + 97) | PHP_INT_MIN], ['', 5381 | PHP_INT_MIN]];
                $w = $C[intdiv($p, 4) % 10]; $v = $w[intdiv($p, 40) % count($w)]; switch ($p % 4) { case 2: return [$v]; case 3: return is_int($v) || is_string($v) ? [$v => 1] : ['q' => $v]; } return $v;
            case 'dstr': return str_repeat('x', 1 + $p % 5) . ($p % 7);
            case 'lstr': return str_repeat(chr(97 + $p % 3), 300 + $p % 3);
            case 'xstr': static $L = [253, 254, 255, 256, 257, 127, 128, 511, 253, 254, 255, 256, 0, 1, 255, 65535, 254, 255, 256, 65536, 253, 255, 256, 65534]; return str_repeat(chr(97 + intdiv($p, 24) % 3), $L[$p % 24]) . ($p % 5 === 0 ? "\0" : '');
            case 'arr': switch ($p % 6) { case 0: return []; case 1: return [1, 2]; case 2: return ['k' => $p % 3, 1 => 'v' . ($p % 2)]; case 3: return [1 => 'v', 'k' => 0.0]; case 4: return [[NAN, 'n' => [$p % 2]]]; default: return [str_repeat('q', $p % 3), null, true]; }
            case 'tok': return $this->newTok(['Tok', 'Tok', 'Tok', 'Tak', 'Tok', 'Tok', 'To', 'Tokk'][$p % 8]);
            case 'otok': $l = $this->liveToks(); if (!$l) return $this->newTok(); return $this->tok[$l[$p % count($l)]][0]->get();
            case 'val': return new Val([$p % 5, 'v' . $p % 3][$p % 2] . '#' . $this->valN++);
            case 'tokarr': return $p % 2 ? [$this->newTok(), $p % 3] : ['k' => ['n' => $this->newTok()]];
        }
        return null;
    }
    public function offset(int $r, int $n): int {
        if ($r % 8 !== 7 && $n > 0) return intdiv($r, 8) % $n;
        return [$n, $n + 1, -1, PHP_INT_MAX, PHP_INT_MIN, 4294967296, -$n - 1, $n + 100, 4294967297, -2][intdiv($r, 8) % 10];
    }
    public function uid(): int { return $this->uidN++; }

    /* ---- calling the real code ---- */
    /** Runs $f as operation $x. Returns [status, value]: 'ok' | 'inj' (injected exception surfaced) | 'exc'. */
    public function call(Ctx $x, callable $f): array {
        $sv = $this->cur; $this->cur = $x; $x->in = true; $x->thrown = []; $exc = null; $r = null;
        if ($x->oom >= 0) { $this->oomOp = $x->name; $this->lg("! arm out of memory at allocation {$x->oom} of {$x->name}"); $this->st('fault_oom_armed'); simx_arm($x->oom + 1); }
        $q = simx_pause(false); try { $r = $f(); } catch (Throwable $e) { $exc = $e; } simx_pause($q);
        if ($x->oom >= 0) { $used = simx_disarm(); $x->oom = max(0, $x->oom - $used); $this->snapshot(); }
        $x->in = false; $this->cur = $sv;
        if ($this->viol) { throw new Viol('stop'); }
        if ($exc instanceof Viol) throw $exc;
        if ($exc === null) {
            if ($x->thrown) $this->fail('exception-lost', "{$x->name}: an exception thrown by user code inside the operation did not reach the caller");
            return ['ok', $r];
        }
        foreach ($x->thrown as $t) { if ($t === $exc) { $this->st('injected_surfaced'); return ['inj', null]; } }
        if ($x->thrown) { // wrapped or replaced: the injected one must be in the chain
            for ($p = $exc; $p; $p = $p->getPrevious()) { foreach ($x->thrown as $t) { if ($t === $p) { if (!$exc instanceof InjEx) $this->fail('exception-lost', "{$x->name}: user code threw inside the operation, but the caller got " . get_class($exc) . ': ' . $exc->getMessage()); return ['inj', null]; } } }
            $this->fail('exception-lost', "{$x->name}: user code threw but caller got " . get_class($exc) . ': ' . $exc->getMessage());
        }
        return ['exc', $exc];
    }
    /** contents when an operation begins; operations inside it add theirs */
    public array $snaps = [];
    private function snapshot(bool $inner = false): void { if ($inner) { if ($this->snap !== null) $this->snaps[] = $this->snap; } else $this->snaps = []; $this->snap = []; foreach ($this->slots as $c) $this->snap[$c->sid] = [$c->m->K, $c->m->V]; }
    /** call and require the result: $exp = ['v', modelValue] | ['e', class...] | ['ok'] */
    public function expect(Ctx $x, array $exp, callable $f): array {
        [$s, $v] = $this->call($x, $f);
        if ($s === 'inj') { $this->lg("{$x->name} -> injected exception"); return [$s, null]; }
        if ($s === 'exc') {
            $this->lg("{$x->name} -> " . get_class($v));
            if ($exp[0] !== 'e') $this->fail('result', "{$x->name}: unexpected " . get_class($v) . ': ' . $v->getMessage() . ($exp[0] === 'v' ? ', expected ' . short($exp[1]) : ''));
            foreach (array_slice($exp, 1) as $c) { if ($v instanceof $c) return [$s, $v]; }
            $this->fail('result', "{$x->name}: threw " . get_class($v) . ': ' . $v->getMessage() . ', expected ' . implode('|', array_slice($exp, 1)));
        }
        if ($exp[0] === 'e') $this->fail('result', "{$x->name}: returned " . short($this->m($v)) . ', expected exception ' . implode('|', array_slice($exp, 1)));
        if ($exp[0] === 'v') {
            $mv = fp($this->m($v));
            $this->lg("{$x->name} = " . (strlen($mv) > 300 ? hash('xxh64', $mv) : $mv));
            $ev = fp($exp[1]);
            if ($mv !== $ev) $this->fail('result', "{$x->name}: returned " . short($this->m($v)) . ', expected ' . short($exp[1]));
        } else { $this->lg("{$x->name} ok"); }
        return [$s, $v];
    }

    /* ---- steps ---- */
    public function slot(int $sel): ?Coll { return $this->slots ? $this->slots[$sel % count($this->slots)] : null; }
    /** $st = [slotSel, opSel, a, b, c, script] */
    public function runStep(array $st, ?Ctx $parent = null): void {
        if ($this->viol) return;
        [$ss, $os, $a, $b, $c, $script] = $st;
        $co = ($parent && $parent->c && ($ss & 1)) ? $parent->c : $this->slot($ss >> 1);
        if (!$co || !$co->o) return;
        if ($parent) { for ($p = $parent; $p; $p = null) { $p->mut = true; } }
        $x = new Ctx; $x->c = $co; $x->depth = $this->depth;
        foreach ($script as [$n, $act, $arg]) { $x->script[$n] = [$act, $arg]; }
        $op = $co->f->pick($co->cls, $os);
        if (!$parent) { // an allocation failure stays armed until an operation (of the chosen kind) allocates that often
            $arm = $this->cfg['oomarm'] ?? 'once'; if (isset($st[6])) $this->oomCarry = $st[6];
            if ($this->oomCarry >= 0 && ($arm !== 'mut' || $co->f->changes($co->cls, $op))) { $x->oom = $this->oomCarry; $this->snapshot(); }
        }
        if ($parent && $this->snap !== null) $this->snapshot(true);
        $x->name = "#{$co->sid}:" . substr($co->cls, 5) . "::$op";
        $this->opsDone++; $this->st('ops'); $this->st('op_' . substr($co->cls, 5) . '_' . $op);
        $co->f->run($op, $co, [$a, $b, $c], $x);
        if (!$parent && $x->oom >= 0) $this->oomCarry = $arm === 'once' ? -1 : $x->oom;
        if (!$this->viol && $this->depth === 0) { $this->after($co); }
    }
    public function after(Coll $co): void {
        $all = $this->opsDone % 4 === 0; // the others every few operations (and at the end): nothing an operation does to one may change another
        foreach ($this->slots as $s) { if ($s === $co || $all) { if ($s->o) $s->f->verify($s); } }
        if ($this->opsDone % 3) $co->f->peekIters($co);
        $m = $co->m; $sig = $m->ver . '|' . count($m->iters); foreach ($m->iters as $it) $sig .= $it->st;
        if ($m->sig !== $sig) { $m->sig = $sig; $this->states[hash('xxh64', $co->cls . '|' . $co->f->stateKey($co))] = 1; }
    }
    public function top(int $task, array $st): void {
        if (isset($this->pending[$task])) {
            $f = $this->pending[$task];
            if ($st[2] % 9 === 0 && ($this->cfg['kill'] ?? true)) {
                $this->lg("kill task $task"); $this->st('fault_task_kill');
                $this->pending[$task]->ctxKill();
                unset($this->pending[$task], $f);
            } else {
                $this->lg("resume task $task"); $this->st('resumes');
                $f->resume();
                if ($f->done()) unset($this->pending[$task]);
            }
        } elseif ($this->hasSusp($st[5])) {
            $t = new Task($this, $st);
            $t->start();
            if (!$t->done()) $this->pending[$task] = $t;
        } else {
            $this->runStep($st);
        }
        $this->depth = 0; $this->cur = null;
        if ($this->viol) return;
        if (!$this->pending && $this->lifetime) $this->lifetimeCheck(!$this->cyc);
    }
    private function hasSusp(array $script): bool { foreach ($script as $s) { if ($s[1] === 'susp') return true; if ($s[1] === 'nest' && $this->hasSusp($s[2][5])) return true; } return false; }

    /* ---- lifetime oracle ---- */
    public function reach(mixed $v, array &$set): void {
        if ($v instanceof Stub) { $set[$v->id] = true; return; }
        if (is_array($v)) { foreach ($v as $x) { if (is_object($x) || is_array($x)) $this->reach($x, $set); } }
    }
    private function dumpIters(): void {
        foreach ($this->slots as $c) foreach ($c->m->iters as $it) $this->log[] = "iter of #{$c->sid}: {$it->st} gen=" . (int)$it->gen . ' hold ' . short($it->hold);
        foreach ($this->orphans as $it) $this->log[] = "orphan iter {$it->cls}: {$it->st} gen=" . (int)$it->gen . ' hold ' . short($it->hold) . ' model ' . short($it->m->V);
        foreach ($this->slots as $c) $this->log[] = "slot #{$c->sid} {$c->cls}: " . short($c->m->K) . ' ' . short($c->m->V);
    }
    public function lifetimeCheck(bool $exact = true): void {
        $set = []; $seen = []; $todo = [];
        $add = function (Model $m) use (&$seen, &$todo) { $h = spl_object_id($m); if (!isset($seen[$h])) { $seen[$h] = $m; $todo[] = $m; } };
        foreach ($this->slots as $s) { if ($s->o) $add($s->m); }
        foreach ($this->orphans as $it) { if (!$it->o) continue; $add($it->m); $this->reach($it->hold, $set); }
        foreach ($this->sinks as $v) { $this->reach($v, $set); }
        $follow = [];
        do {
            while ($todo) {
                $m = array_pop($todo);
                foreach ($m->K as $k) { if (is_object($k) || is_array($k)) $this->reach($k, $set); }
                foreach ($m->V as $k) { if (is_object($k) || is_array($k)) $this->reach($k, $set); }
                foreach ($m->iters as $it) { $this->reach($it->hold, $set); }
            }
            $n = count($set); foreach ($this->links as $id => [$m, $h]) { if (isset($set[$id])) { $add($m); $this->reach($h, $set); } }
        } while ($todo || count($set) > $n);
        foreach ($this->tok as $id => $t) {
            if ($t[1] > 1) $this->fail('lifetime', "token $id released {$t[1]} times");
            $dead = $t[1] > 0;
            if ($dead && isset($set[$id])) $this->fail('lifetime', "token $id was released but is still reachable through a collection");
            if (!$dead && !isset($set[$id])) {
                if ($t[0]->get() === null) { $this->fail('lifetime', "token $id vanished without release"); }
                if ($exact) $this->fail('lifetime', "token $id is not reachable any more but was not released");
            }
            if ($dead) { unset($this->tok[$id], $this->links[$id]); }
        }
        $this->st('lifetime_checks');
    }
    /** after a collection run, every unreachable cycle must be gone */
    public function gcCheck(): void { if (!$this->cyc) return; if ($this->pending || $this->depth) return; $this->gc(); $this->gc(); $this->lifetimeCheck(true); $this->st('cycle_checks'); }
}

/** A task: one operation running in a fiber, suspendable inside user code. */
final class Task {
    private ?Fiber $f; private array $ctxs = [];
    public function __construct(private Sim $s, array $st) { $this->f = new Fiber(function () use ($st) { try { $this->s->runStep($st); } catch (Viol $e) {} }); }
    public function start(): void { $this->s->st('tasks'); $this->go(fn() => $this->f->start()); }
    public function resume(): void { $this->go(fn() => $this->f->resume()); }
    private ?Ctx $at = null;
    private function go(callable $g): void { $g(); $this->at = $this->s->cur; $this->s->depth = 0; $this->s->cur = null; }
    public function done(): bool { return $this->f->isTerminated(); }
    public function ctxKill(): void { if ($this->at) $this->at->killed = true; $this->s->killing = true; $this->f = null; $this->at = null; $this->s->cur = null; $this->s->killing = false; }
}
