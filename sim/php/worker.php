<?php
/* worker.php run PROP START COUNT SECONDS WORKDIR   -> one JSON line per failing run, then a summary line
 * worker.php serve WORKDIR                          -> plans as JSON lines on stdin, one result JSON line each
 * worker.php gen PROP SEED                          -> the plan as JSON */
error_reporting(E_ALL); ini_set('display_errors', '0'); ini_set('memory_limit', '-1'); set_time_limit(0);
foreach (['core', 'fn', 'ser', 'fam', 'seq', 'map', 'heap', 'kv', 'mem', 'bulk', 'gen', 'run'] as $f) require __DIR__ . "/$f.php";
if (!simx_install()) { fwrite(STDERR, "simx: no custom allocator\n"); exit(3); }

function fork_run(array $plan, int $phase, string $disk, bool $trace, string $wd, int $timeout): array {
    $p = stream_socket_pair(STREAM_PF_UNIX, STREAM_SOCK_STREAM, 0);
    $pid = pcntl_fork();
    if ($pid === 0) { fclose($p[0]); Runner::child($plan, $phase, $disk, $trace, $p[1]); }
    fclose($p[1]); $buf = ''; $hang = false; $t0 = hrtime(true);
    stream_set_blocking($p[0], false);
    while (true) {
        $r = [$p[0]]; $w = $e = null; $left = $timeout - (hrtime(true) - $t0) / 1e9;
        if ($left <= 0) { $hang = true; posix_kill($pid, SIGKILL); break; }
        if (@stream_select($r, $w, $e, (int)ceil($left)) === false) continue;
        if (!$r) continue;
        $d = fread($p[0], 1 << 16);
        if ($d === '' || $d === false) { if (feof($p[0])) break; continue; }
        $buf .= $d;
    }
    fclose($p[0]);
    // after the report the process still has to leave in bounded time
    $st = 0;
    for ($i = 0; ; $i++) { if (pcntl_waitpid($pid, $st, $hang ? 0 : WNOHANG) !== 0) break; if ((hrtime(true) - $t0) / 1e9 > $timeout) { $hang = true; posix_kill($pid, SIGKILL); } else usleep($i < 50 ? 50 : 1000); }
    $res = $buf !== '' ? json_decode($buf, true) : null;
    $log = "$wd/asan.$pid"; $asan = null;
    if (is_file($log)) { $asan = file_get_contents($log); if (getenv("KEEP_ASAN")) copy($log, getenv("KEEP_ASAN")); unlink($log); if (!str_contains($asan, 'ERROR: ')) $asan = null; }
    $bad = null;
    if ($hang) $bad = ['kind' => 'hang', 'msg' => "no progress for $timeout seconds", 'step' => -1];
    elseif (pcntl_wifsignaled($st)) $bad = ['kind' => 'crash', 'msg' => 'killed by signal ' . pcntl_wtermsig($st), 'step' => -1];
    elseif (pcntl_wexitstatus($st) === 99 || $asan !== null) $bad = ['kind' => 'memory', 'msg' => asan_summary($asan ?? ''), 'step' => -1];
    elseif ($res === null) $bad = ['kind' => 'abnormal-exit', 'msg' => 'process ended with status ' . pcntl_wexitstatus($st) . ' without a report', 'step' => -1];
    elseif (pcntl_wexitstatus($st) !== 0 && !(pcntl_wexitstatus($st) === 255 && isset($res['st']['fault_oom_fired']))) $bad = ['kind' => 'abnormal-exit', 'msg' => 'exit status ' . pcntl_wexitstatus($st), 'step' => -1];
    $res ??= ['v' => null, 'h' => '', 'st' => [], 'states' => [], 'kn' => [], 'log' => [], 'disk' => ''];
    if ($bad && ($bad['kind'] !== 'abnormal-exit' || !$res['v'])) { $res['v'] = $bad; $res['h'] = hash('xxh64', $bad['kind'] . $bad['msg']); }
    return $res;
}
function asan_summary(string $t): string {
    if (!preg_match('/ERROR: AddressSanitizer: (\S+)/', $t, $m)) return 'memory error: ' . substr(preg_replace('/0x[0-9a-f]+|==\d+==/', '', $t), 0, 200);
    $fr = []; if (preg_match_all('/#\d+ 0x[0-9a-f]+ (?:in (\S+) )?.*?(teds\S*\.[ch]:\d+|teds\.so[^)]*)/', $t, $f, PREG_SET_ORDER)) foreach (array_slice($f, 0, 4) as $q) $fr[] = ($q[1] ?: '?') . ' ' . $q[2];
    return "AddressSanitizer: {$m[1]} " . implode(' < ', $fr);
}
/** all phases of a plan */
function run_plan(array $plan, bool $trace, string $wd, int $timeout = 60): array {
    $ph = count($plan['cfg']['crash'] ?? []); $disk = ''; $tot = null;
    for ($p = 0; $p <= $ph; $p++) {
        $r = fork_run($plan, $p, $disk, $trace, $wd, $timeout);
        if ($tot === null) $tot = $r; else { foreach ($r['st'] as $k => $v) $tot['st'][$k] = ($tot['st'][$k] ?? 0) + $v; $tot['states'] = array_merge($tot['states'], $r['states']); $tot['log'] = array_merge($tot['log'], ['=== crash and restart ==='], $r['log']); $tot['v'] ??= $r['v']; $tot['h'] = hash('xxh64', $tot['h'] . $r['h']); $tot['kn'] = array_values(array_unique(array_merge($tot['kn'], $r['kn']))); }
        if ($r['v']) break;
        $disk = $r['disk'];
        if ($p < $ph) { $tot['st']['fault_crash'] = ($tot['st']['fault_crash'] ?? 0) + 1; }
    }
    unset($tot['disk']);
    return $tot;
}
$mode = $argv[1] ?? '';
if ($mode === 'gen') { echo json_encode((new Gen($argv[2], (int)$argv[3]))->plan()), "\n"; simx_exit(0); }
if ($mode === 'serve') {
    while (($l = fgets(STDIN)) !== false) { $j = json_decode($l, true); $plan = $j['plan'] ?? (new Gen($j['prop'], $j['seed']))->plan(); $r = run_plan($plan, $j['trace'] ?? false, $argv[2], $j['timeout'] ?? 60); if (empty($j['states'])) unset($r['states']); fwrite(STDOUT, json_encode($r, JSON_INVALID_UTF8_SUBSTITUTE) . "\n"); fflush(STDOUT); }
    simx_exit(0);
}
if ($mode === 'run') {
    [, , $prop, $start, $count, $secs, $wd] = $argv; $start = (int)$start; $count = (int)$count; $t0 = hrtime(true); $agg = []; $states = []; $kn = []; $done = 0; $fails = 0; $runs = []; $hashes = []; $samples = []; $nontriv = 0; $slots = [];
    for ($k = 0; $k < $count; $k++) {
        if ((hrtime(true) - $t0) / 1e9 > (float)$secs) break;
        $seed = $start + $k; $plan = (new Gen($prop, $seed))->plan(); $r = run_plan($plan, false, $wd); $done++;
        foreach ($r['st'] as $q => $v) $agg[$q] = ($agg[$q] ?? 0) + $v;
        foreach ($r['states'] as $q) $states[substr($q, 0, 12)] = 1; foreach ($r['kn'] as $q) $kn[$q] = 1;
        $hashes[$r['h']] = 1; $fault = 0; foreach ($r['st'] as $q => $v) if (str_starts_with($q, 'fault_')) $fault += $v;
        if (($r['st']['ops'] ?? 0) >= 5) $nontriv++;
        if (count($samples) < 3) $samples[] = ['seed' => $seed, 'slots' => $plan['cfg']['slots'], 'steps' => count($plan['steps']), 'ops' => $r['st']['ops'] ?? 0, 'faults' => $fault, 'hash' => $r['h']];
        if ($k % 97 === 0) $runs[] = [$seed, $r['h']];
        if ($r['v']) { $fails++; fwrite(STDOUT, json_encode(['fail' => $seed, 'v' => $r['v'], 'h' => $r['h']], JSON_INVALID_UTF8_SUBSTITUTE) . "\n"); fflush(STDOUT); if ($fails >= 3) break; }
    }
    file_put_contents("$wd/states", implode("\n", array_keys($states)));  file_put_contents("$wd/hashes", implode("\n", array_keys($hashes)));
    fwrite(STDOUT, json_encode(['summary' => 1, 'done' => $done, 'st' => $agg, 'kn' => array_keys($kn), 'secs' => (hrtime(true) - $t0) / 1e9, 'samples' => $samples, 'redo' => $runs, 'nontriv' => $nontriv, 'start' => $start]) . "\n");
    simx_exit(0);
}
