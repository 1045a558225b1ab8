<?php
// Executes the commands of scenarios through the PHP binding.
$rules = [];
$docs = [];

function text($v) { return $v ? pack('C*', ...$v) : ''; }
function enc($s) { return $s === '' ? [] : array_values(unpack('C*', $s)); }
class Hollow extends HextRule { function __construct() {} }
class Shape extends Exception {}
function shape($ok, $what) { if( !$ok ) throw new Shape($what); }

function maps($res) {
  shape(is_array($res), 'not an array');
  $out = [];
  foreach($res as $m) {
    shape(is_array($m), 'not an array of arrays');
    $o = [];
    foreach($m as $k => $v) {
      // as a user looks it up: by its name
      shape(isset($m[(string)$k]) && $m[(string)$k] === $v, 'not found under its name');
      $vs = is_array($v) ? $v : [$v];
      shape(array_values($vs) === $vs, 'not a list');
      foreach($vs as $x) shape(is_string($x), 'value');
      // PHP turns keys that look like integers into integers
      $o[] = [enc((string)$k), array_map('enc', array_values($vs)), is_array($v)];
    }
    $out[] = $o;
  }
  return $out;
}

function use_twice($o, $f) {
  $keep = [$o, $o];
  try { $f($o); }
  finally {
    $more = [];
    for($i = 0; $i < 50; ++$i) $more[] = [new stdClass, str_repeat('x', $i)];
    shape(serialize($keep[0]) === serialize($o), 'argument was changed');
  }
}

function misuse($kind) {
  switch($kind) {
    // the arguments must still be there afterwards
    case 'rule-type': use_twice(new stdClass, fn($o) => new HextRule($o)); break;
    case 'html-type': use_twice(new stdClass, fn($o) => new HextHtml($o)); break;
    case 'rule-list': use_twice([str_repeat('<a/>', random_int(1, 2))], fn($o) => @new HextRule($o)); break;
    case 'extract-type': (new HextRule('<a/>'))->extract('text'); break;
    case 'rule-missing': new HextRule(); break;
    case 'rule-hollow': (new Hollow())->extract(new HextHtml('<a></a>')); break;
    case 'html-hollow': (new HextRule('<a/>'))->extract((new ReflectionClass('HextHtml'))->newInstanceWithoutConstructor()); break;
    case 'max-type': (new HextRule('<a/>'))->extract('x', []); break;
  }
}

function run($c) {
  global $rules, $docs;
  $op = $c['op'];
  if( $op === 'reset' ) { $rules = []; $docs = []; return new stdClass; }
  $e = ['op' => $op, 'lang' => 'php', 'id' => $c['id']];
  try {
    switch($op) {
      case 'b-rule':
        $e['r'] = $c['r']; $e['src'] = $c['src'];
        $e['again'] = !empty($c['again']) && isset($rules[$c['r']]);
        if( $e['again'] )
          $rules[$c['r']]->__construct(text($c['src']));
        else {
          unset($rules[$c['r']]);
          $rules[$c['r']] = new HextRule(text($c['src']));
        }
        break;
      case 'b-html':
        $e['d'] = $c['d'];
        if( !empty($c['drop']) ) unset($docs[$c['d']]);
        $docs[$c['d']] = new HextHtml(text($c['html']));
        break;
      case 'b-extract':
        $e['r'] = $c['r']; $e['d'] = $c['d']; $e['max'] = $c['max'];
        if( !isset($rules[$c['r']]) ) throw new Exception('no rule');
        $r = $rules[$c['r']];
        $e['maps'] = maps($c['max'] != 0 || !empty($c['explicit']) ? $r->extract($docs[$c['d']], $c['max'] < 0 ? 4294967296 - $c['max'] : $c['max']) : $r->extract($docs[$c['d']]));
        break;
      case 'b-free':
        $e['what'] = $c['what']; $e['slot'] = $c['slot'];
        if( $c['what'] === 'rule' ) unset($rules[$c['slot']]); else unset($docs[$c['slot']]);
        break;
      case 'b-misuse':
        misuse($c['kind']);
        break;
    }
    $e['out'] = 'ok';
  } catch(Shape $x) {
    $e['out'] = 'shape'; $e['msg'] = $x->getMessage();
  } catch(Throwable $x) {
    $e['out'] = 'error'; $e['msg'] = preg_replace('/[^\x20-\x7e]/', '?', substr($x->getMessage(), 0, 300));
  }
  return $e;
}

while( ($line = fgets(STDIN)) !== false )
  echo json_encode(run(json_decode($line, true))), "\n";
