# Executes the commands of scenarios through the Ruby binding.
require 'json'
require 'hext'

$rules = {}
$docs = {}

def text(v)
  v.pack('C*').force_encoding('UTF-8')
end

def shape(ok, what)
  raise NoMemoryError, "shape: #{what}" unless ok
end

def maps(res)
  shape(res.is_a?(Array), 'not an array')
  res.map do |m|
    shape(m.is_a?(Hash), 'not a hash')
    m.map do |k, v|
      shape(k.is_a?(String) && k.encoding == Encoding::UTF_8, 'key')
      shape(m[k.bytes.pack('C*').force_encoding('UTF-8')].equal?(v), 'not found under its name')
      vs = v.is_a?(Array) ? v : [v]
      vs.each { |x| shape(x.is_a?(String) && x.encoding == Encoding::UTF_8, 'value') }
      [k.bytes, vs.map(&:bytes), v.is_a?(Array)]
    end
  end
end

def misuse(kind)
  case kind
  when 'rule-type' then Hext::Rule.new(nil)
  when 'rule-list' then Hext::Rule.new(['<a/>'])
  when 'html-type' then Hext::Html.new(5)
  when 'extract-type' then Hext::Rule.new('<a/>').extract('text')
  when 'rule-missing' then Hext::Rule.new
  when 'rule-hollow' then Hext::Rule.allocate.extract(Hext::Html.new('<a></a>'))
  when 'html-hollow' then Hext::Rule.new('<a/>').extract(Hext::Html.allocate)
  when 'max-type' then Hext::Rule.new('<a/>').extract(Hext::Html.new('<a></a>'), 'x')
  end
end

def run(c)
  op = c['op']
  if op == 'reset'
    $rules.clear
    $docs.clear
    return {}
  end
  e = { 'op' => op, 'lang' => 'ruby', 'id' => c['id'] }
  begin
    case op
    when 'b-rule'
      e['r'] = c['r']; e['src'] = c['src']
      e['again'] = c['again'] && $rules.key?(c['r']) ? true : false
      if e['again']
        $rules[c['r']].send(:initialize, text(c['src']))
      else
        $rules.delete(c['r'])
        $rules[c['r']] = Hext::Rule.new(text(c['src']))
      end
    when 'b-html'
      e['d'] = c['d']
      if c['drop']
        $docs.delete(c['d'])
        GC.start
      end
      $docs[c['d']] = Hext::Html.new(text(c['html']))
    when 'b-extract'
      e['r'] = c['r']; e['d'] = c['d']; e['max'] = c['max']
      r = $rules.fetch(c['r'])
      e['maps'] = maps(c['max'] != 0 || c['explicit'] ? r.extract($docs.fetch(c['d']), c['max'] < 0 ? 2**32 - c['max'] : c['max']) : r.extract($docs.fetch(c['d'])))
    when 'b-free'
      e['what'] = c['what']; e['slot'] = c['slot']
      (c['what'] == 'rule' ? $rules : $docs).delete(c['slot'])
      GC.start
    when 'b-misuse'
      misuse(c['kind'])
    end
    e['out'] = 'ok'
  rescue NoMemoryError => x
    e['out'] = x.message.start_with?('shape') ? 'shape' : 'error'
    e['msg'] = x.message
  rescue Exception => x
    e['out'] = 'error'
    e['msg'] = x.message[0, 300].bytes.map { |b| b < 128 ? b.chr : '?' }.join
  end
  e
end

$stdout.sync = true
$stdin.each_line { |line| puts JSON.generate(run(JSON.parse(line))) }
