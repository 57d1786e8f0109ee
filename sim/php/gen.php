<?php
/* Seed -> plan. A plan is a configuration and a flat list of steps; every argument is interpreted modulo the current
 * state, so any subset of the steps is again a valid plan (that is what makes minimisation simple). */
final class Gen {
    private Random\Randomizer $r;
    public function __construct(string $prop, private int $seed) { $this->prop = $prop; $this->r = new Random\Randomizer(new Random\Engine\Xoshiro256StarStar(hash('sha256', "$prop/$seed", true))); }
    private string $prop;
    private function i(int $n): int { return $n <= 1 ? 0 : $this->r->getInt(0, $n - 1); }
    private function p(float $q): bool { return $this->r->getInt(0, 999999) < $q * 1000000; }
    private function big(): int { return $this->r->getInt(0, 0x3fffffff); }
    private function one(array $a): mixed { return $a[$this->i(count($a))]; }
    private function some(array $a, int $n): array { $o = []; for ($i = 0; $i < $n; $i++) $o[] = $this->one($a); return array_values(array_unique($o)); }

    const SEQ = SeqFam::CLS; const MAP = MapFam::CLS; const SET = SetFam::CLS; const HEAP = HeapFam::CLS; const KV = KvFam::CLS; const CACHED = CachedFam::CLS; const EMPTY = EmptyFam::CLS;
    public static function classes(string $prop): array {
        $mutable = array_merge(array_slice(self::SEQ, 0, 5), self::MAP, array_slice(self::SET, 0, 4), self::HEAP, ['Teds\MutableIterable']);
        $all = array_merge(self::SEQ, self::MAP, self::SET, self::HEAP, self::KV, self::CACHED);
        switch ($prop) {
            case 'C01': return self::SEQ;
            case 'C02': return ['Teds\StrictHashMap', 'Teds\StrictHashSet'];
            case 'C03': return ['Teds\StrictTreeMap', 'Teds\StrictSortedVectorMap', 'Teds\StrictTreeSet', 'Teds\StrictSortedVectorSet', 'Teds\SortedIntVectorSet', 'Teds\ImmutableSortedIntSet', 'Teds\ImmutableSortedStringSet'];
            case 'C04': return self::HEAP;
            case 'C05': return $mutable;
            case 'C06': return self::KV;
            case 'C13': return self::CACHED;
            case 'C14': return ['Teds\ImmutableSequence', 'Teds\ImmutableIterable', 'Teds\ImmutableSortedIntSet', 'Teds\ImmutableSortedStringSet', 'Teds\EmptySequence', 'Teds\EmptyMap', 'Teds\EmptySet'];
            case 'C11': return array_merge($all, array_fill(0, 3, 'Teds\ImmutableSortedStringSet'), ['Teds\IntVector', 'Teds\IntVector', 'Teds\BitVector', 'Teds\BitVector', 'Teds\LowMemoryVector', 'Teds\ImmutableSortedIntSet', 'Teds\SortedIntVectorSet']); // own binary formats
            default: return $all;
        }
    }
    const VK = ['null', 'bool', 'small', 'int', 'mid', 'float', 'fspec', 'num', 'str', 'nstr', 'dstr', 'arr', 'arrs', 'coll', 'tok', 'tok', 'otok', 'tokarr'];
    /** one seed in so many drives a few collections to large sizes */
    const BULK = ['C01' => 25, 'C02' => 25, 'C03' => 25, 'C04' => 25, 'C05' => 40, 'C06' => 25, 'C11' => 40, 'C15' => 25];
    private function bulkPlan(): array {
        $p = $this->prop; $cl = array_values(array_filter(array_map(fn($k) => "Teds\\$k", array_keys(Bulk::F)), fn($k) => in_array($k, self::classes($p), true)));
        if ($p === 'C05') $cl = array_values(array_filter($cl, fn($k) => in_array(Bulk::F[substr($k, 5)], [Bulk::MAP, Bulk::SET], true)));
        $ns = 1 + $this->i(2); $sl = $md = []; for ($i = 0; $i < $ns; $i++) { $sl[] = $this->one($cl); $md[] = $this->i(960); }
        $q = $p === 'C01' || $p === 'C15'; $cap = $this->one([150, 600, 600, $q ? 600 : 2000, $q ? 2000 : 5000]); if ($this->p(0.02)) $cap = $q ? 9000 : 70000;
        $pre = ['C05' => 14, 'C11' => 11, 'C15' => 11][$p] ?? null;
        $steps = []; for ($k = $this->one([6, 15, 30]); $k > 0; $k--) { $z = $this->big(); if ($pre !== null && $this->p(0.3)) $z = $pre; $y = $this->big(); if ($p === 'C11' && $z === 11 && $this->p(0.8)) $y = 2; $steps[] = [$this->i($ns), [0, $z, $this->big(), $y, $this->big(), []]]; }
        return ['cfg' => ['prop' => $p, 'slots' => $sl, 'modes' => $md, 'cap' => $cap, 'kinds' => []], 'steps' => $steps];
    }
    private function memPlan(): array {
        $cl = array_map(fn($k) => "Teds\\$k", array_keys(MemHist::E)); $ns = 1 + $this->i(3); $sl = $md = [];
        for ($i = 0; $i < $ns; $i++) { $sl[] = $this->one($cl); $md[] = $this->i(1 << 10); }
        $steps = []; for ($k = $this->one([3, 8, 20, 40]); $k > 0; $k--) $steps[] = [$this->i($ns), [0, $this->big(), $this->big(), $this->big(), $this->big(), []]];
        return ['cfg' => ['prop' => 'C19', 'slots' => $sl, 'modes' => $md, 'kinds' => []], 'steps' => $steps];
    }
    public function plan(): array {
        if ($this->prop === 'C19') return $this->memPlan();
        if (isset(self::BULK[$this->prop]) && $this->seed % self::BULK[$this->prop] === 7) return $this->bulkPlan();
        $prop = $this->prop; $cl = self::classes($prop);
        // profile: probability that a step carries faults, their kinds, op weights by tag
        $P = ['fault' => 0.15, 'acts' => ['nest' => 4, 'throw' => 2, 'susp' => 3, 'gc' => 1], 'w' => [], 'tok' => 0.6, 'leak' => 0, 'cyc' => false, 'oom' => false, 'slots' => 2, 'len' => 60];
        switch ($prop) {
            case 'C01': case 'C02': case 'C03': case 'C04': case 'C06': $P['fault'] = 0.12; $P['tok'] = 0.35; $P['w'] = ['iter' => 0.7, 'gc' => 0.3]; $P['len'] = 90; break;
            case 'C05': $P['fault'] = 0.12; $P['w'] = ['iter' => 4, 'mut' => 1.5, 'read' => 0.2, 'ser' => 0.2, 'new' => 0.4, 'fn' => 0.3]; $P['tok'] = 0.3; $P['len'] = 100; break;
            case 'C07': $P['fault'] = 0.55; $P['acts'] = ['nest' => 6, 'susp' => 4, 'throw' => 1, 'gc' => 1]; $P['tok'] = 1; $P['w'] = ['cb' => 3, 'fn' => 1.5, 'clear' => 2, 'new' => 1.5]; break;
            case 'C08': $P['fault'] = 0.55; $P['acts'] = ['throw' => 6, 'nest' => 2, 'susp' => 2]; $P['tok'] = 1; $P['w'] = ['cb' => 3, 'fn' => 1.5, 'clear' => 2, 'new' => 2.5, 'iter' => 1.6]; $P['leak'] = 0.2; $P['bad'] = true; break;
            case 'C09': $P['fault'] = 0.3; $P['acts'] = ['throw' => 4, 'nest' => 3, 'susp' => 2, 'gc' => 1]; $P['tok'] = 1; $P['w'] = ['clone' => 2, 'clear' => 2, 'new' => 2, 'ser' => 2, 'iter' => 1.2]; $P['leak'] = 0.4; if ($this->seed % 6 === 1) { $P['tok'] = 0.2; $P['w']['dur'] = 3; $P['w']['new'] = 3; $P['leak'] = 1; } break;
            case 'C10': $P['fault'] = 0.1; $P['oom'] = true; $P['tok'] = 0.5; $P['w'] = ['grow' => 3, 'new' => 2, 'clone' => 2, 'ser' => 1.5, 'iter' => 0.5]; $P['len'] = 30; break;
            case 'C11': $P['fault'] = 0.03; $P['tok'] = 0; $P['w'] = ['dur' => 4, 'iter' => 0.4, 'gc' => 0.2, 'fn' => 0.2, 'grow' => 1.5]; $P['leak'] = 0.2; $P['crash'] = 0.6; break;
            case 'C12': $P['fault'] = 0.25; $P['acts'] = ['gc' => 6, 'nest' => 2, 'susp' => 2, 'throw' => 1]; $P['tok'] = 1; $P['cyc'] = true; $P['w'] = ['cyc' => 3, 'gc' => 3, 'new' => 2.5, 'clone' => 2, 'iter' => 1]; $P['slots'] = 3; $P['leak'] = 0.1; break;
            case 'C13': $P['fault'] = 0.3; $P['acts'] = ['throw' => 3, 'nest' => 4, 'susp' => 4]; $P['w'] = []; $P['leak'] = 0.15; break;
            case 'C14': $P['fault'] = 0.25; $P['w'] = ['mut' => 2, 'new' => 2, 'cb' => 2, 'op:reconstruct' => 4, 'op:reunser' => 2]; $P['slots'] = 3; break;
            case 'C15': $P['fault'] = 0.1; $P['tok'] = 0.5; $P['w'] = ['clone' => 8, 'ser' => 3, 'cb' => 3, 'op:newfrom' => 8, 'grow' => 2, 'iter' => 0.7]; $P['slots'] = 4; break;
            case 'C16': $P['fault'] = 0.5; $P['acts'] = ['throw' => 4, 'nest' => 4, 'susp' => 3]; $P['w'] = ['fn' => 40, 'iter' => 0.3, 'read' => 0.3, 'ser' => 0.3]; $P['leak'] = 0.3; $P['tok'] = 0.8; break;
        }
        // swarm: this run's own mix
        $w = $P['w'];
        foreach (['read', 'mut', 'iter', 'new', 'clone', 'ser', 'gc', 'cb', 'grow', 'clear', 'fn', 'dur', 'cyc'] as $t) { $base = $w[$t] ?? (in_array($t, ['dur', 'cyc'], true) ? 0 : 1); $w[$t] = $base * $this->one([0.3, 1, 1, 1, 2.5]); }
        foreach (['it_new', 'clear', 'bulk', 'drain', 'unset', 'insert', 'popfront', 'pushfront', 'churn', 'setsize', 'clone', 'new', 'reserve', 'shrink', 'mpop', 'spop'] as $o) { if ($this->p(0.1)) $w["op:$o"] = ($w["op:$o"] ?? 1) * $this->one([0, 4]); }
        $w = array_filter($w, fn($q) => $q !== 1);
        $nt = $this->p($P['tok']);
        $vk = self::VK; if (!$nt) $vk = array_values(array_filter($vk, fn($k) => !str_contains($k, 'tok')));
        if ($prop === 'C11') $vk = array_merge($vk, ['val', 'val', 'lstr']);
        $kinds = $this->some($vk, 1 + $this->i(6)); if ($nt && !array_intersect($kinds, ['tok', 'tokarr'])) $kinds[] = 'tok';
        $kk = array_values(array_filter($vk, fn($k) => $k !== 'val')); $keys = $this->some($kk, 1 + $this->i(5)); if ($this->p(0.35)) $keys[] = 'mid'; if ($this->p(0.2)) $keys = ['i16'];
        $ik = $this->some(['small', 'mid', 'int', 'i8', 'i16', 'i32'], 1 + $this->i(3));
        $lk = $this->one([null, null, ['small'], ['i8'], ['i8', 'i16'], ['i32'], ['bool'], ['bool', 'null'], ['float'], ['int'], ['int', 'float'], ['small', 'null']]);
        $focus = $this->one($cl); $ns = 1 + $this->i($P['slots'] + 1); $slots = [$focus];
        for ($i = 1; $i < $ns; $i++) $slots[] = $this->p(0.5) ? $focus : $this->one($cl);
        if (in_array($prop, ['C16', 'C14'], true) && $this->p(0.5)) $slots[] = $this->one(['Teds\Vector', 'Teds\Deque', 'Teds\StrictHashMap', 'Teds\MutableIterable', 'Teds\LowMemoryVector', 'Teds\StrictTreeSet']);
        if ($prop === 'C13' && $this->p(0.3)) $slots[] = $this->one(['Teds\ImmutableIterable', 'Teds\Vector']);
        $cfg = ['prop' => $prop, 'slots' => $slots, 'kinds' => array_values($kinds), 'keys' => array_values($keys), 'ikinds' => array_values($ik), 'max' => $this->one([6, 12, 20, 40, 70]), 'w' => $w, 'cyc' => $P['cyc'], 'lifetime' => true];
        if ($lk) $cfg['lkinds'] = $lk; if (!empty($P['bad'])) $cfg['bad'] = $this->one([4, 9, 41]); $sk = $this->i(6); if ($sk < 2) $cfg['skinds'] = $sk ? ['xstr', 'str', 'nstr'] : ['xstr', 'dstr', 'dstr', 'lstr', 'str', 'nstr']; if (isset($cfg['skinds'])) $cfg['max'] = min(20, $cfg['max']);
        if ($this->p(0.5)) foreach ($slots as $i => $_) if ($this->p(0.7)) $cfg['init'][$i] = [$this->big(), $this->big(), $this->big()];
        $len = $this->one([8, 20, $P['len'], $P['len'], $P['len'] * 2]); $steps = []; $pf = $this->p(0.15) ? 0 : $P['fault']; if ($this->p(0.2)) $pf = min(0.9, $pf * 3);
        if (empty($P['cyc']) && $this->p(0.07)) { $cfg['edge'] = 1; $cfg['max'] = 400; if (isset($cfg['skinds'])) unset($cfg['skinds']); $cfg['keys'][] = 'mid'; if ($this->p(0.5)) $cfg['keys'] = ['mid']; $len = $this->one([8, 20, 40]); foreach ($cfg['slots'] as $i => $_) if (!isset($cfg['init'][$i])) $cfg['init'][$i] = [$this->big(), $this->big(), $this->big()]; }
        if (in_array('Teds\BitVector', $slots, true) && $this->p(0.2)) { $cfg['bitbias'] = $this->p(0.5); if ($this->p(0.7)) { $cfg['max'] = max($cfg['max'], 210); foreach ($slots as $i => $k) if ($k === 'Teds\BitVector') { $cfg['edge'] = 1; $cfg['init'][$i] = [$this->big(), $this->big(), $this->big()]; } } }
        $tasks = 1 + $this->i(4);
        for ($k = 0; $k < $len; $k++) $steps[] = [$this->i($tasks), $this->step($pf, $P['acts'], 0)];
        if ($P['leak'] && $this->p($P['leak'])) $cfg['leak'] = true;
        if (!empty($P['crash']) && $this->p($P['crash'])) { $cfg['crash'] = [5 + $this->i($len)]; if ($this->p(0.3)) $cfg['crash'][] = $cfg['crash'][0] + 1 + $this->i($len); unset($cfg['leak']); }
        if ($P['oom'] && $this->p(0.95)) { $cfg['oom'] = true; $cfg['oomarm'] = $this->one(['any', 'mut', 'mut', 'once']); $o = &$steps[$this->i((int)ceil($len * 0.6))]; $o[1][6] = $cfg['oomarm'] === 'mut' ? $this->i($this->one([1, 4, 12])) : ($this->p(0.7) ? $this->i(12) : $this->i(60)); foreach ($steps as &$s2) { $s2[1][5] = array_values(array_filter($s2[1][5], fn($e) => $e[1] !== 'susp')); } }
        return ['cfg' => $cfg, 'steps' => $steps];
    }
    private function step(float $pf, array $acts, int $depth): array {
        $script = [];
        if ($this->p($pf)) {
            $n = 1 + ($this->p(0.4) ? 1 : 0) + ($this->p(0.15) ? 2 : 0);
            for ($i = 0; $i < $n; $i++) { $act = $this->act($acts); $at = 0; if ($this->p(0.2)) $at = $this->i(32); else { $td = $this->p(0.25); while ($at < 40 && $this->p($td ? 0.5 : 0.6)) $at++; if ($td) $at += 1000; } $script[] = [$at, $act, $act === 'nest' ? ($depth < 2 ? $this->step($pf * 0.5, $acts, $depth + 1) : $this->step(0, $acts, $depth + 1)) : 0]; }
        }
        return [$this->big() & 0xffff, $this->big(), $this->big(), $this->big(), $this->big(), $script];
    }
    private function act(array $acts): string { $t = array_sum($acts); $r = $this->i($t); foreach ($acts as $k => $w) { if ($r < $w) return $k; $r -= $w; } return 'throw'; }
}
