1;
% Harness functions for the Octave bindings; sourced before the generated script.  One JSON line per observation.
function r = x_hex(s)
  r = sprintf("%02x", double(s));
  if isempty(r) r = "-"; end
end
function r = x_show(v)
  sz = sprintf("%d,", size(v)); sz = sz(1:end-1);
  if ischar(v) r = sprintf('{"k":"char","s":[%s],"v":"%s"}', sz, x_hex(v(:)'));
  elseif iscell(v)
    p = cellfun(@(e) [x_show(e) ","], v(:)', "UniformOutput", false); p = [p{:}];
    r = sprintf('{"k":"cell","s":[%s],"v":[%s]}', sz, p(1:end-1));
  elseif isstruct(v)
    p = ""; f = fieldnames(v);
    if numel(v) == 1
      for i = 1:numel(f) p = [p sprintf('["%s",%s],', x_hex(f{i}), x_show(v.(f{i})))]; end
    end
    r = sprintf('{"k":"struct","s":[%s],"v":[%s]}', sz, p(1:end-1));
  elseif isa(v, "uint8") r = sprintf('{"k":"uint8","s":[%s],"v":"%s"}', sz, x_hex(v(:)'));
  elseif isa(v, "uint16") r = sprintf('{"k":"uint16","s":[%s],"v":"%s"}', sz, x_hex(typecast(v(:)', "uint8")));
  elseif islogical(v) r = sprintf('{"k":"logical","s":[%s],"v":"%s"}', sz, sprintf("%d", v(:)'));
  elseif isa(v, "double")
    p = ""; if !isempty(v) p = sprintf('"%.9g",', v(:)'); end
    r = sprintf('{"k":"double","s":[%s],"v":[%s]}', sz, p(1:end-1));
  else r = sprintf('{"k":"%s","s":[%s],"v":0}', class(v), sz); end
end
function r = x_struct(varargin)
  r = struct();
  for i = 1:2:numel(varargin) r.(varargin{i}) = varargin{i + 1}; end
end
function x_say(varargin) printf(varargin{:}); printf("\n"); fflush(stdout); end
function r = x_list(c)
  p = cellfun(@(e) [x_show(e) ","], c, "UniformOutput", false); p = [p{:}];
  if isempty(p) r = "[]"; else r = ["[" p(1:end-1) "]"]; end
end
% ---- sessions of traxserver
function r = x_drain(total)
  global X
  r = "~";
  if X.tcp && !total return; end
  if X.tcp
    for i = 1:400
      if exist([X.out ".done"], "file") break; end
      pause(0.01);
    end
    X.pos = 0;
  end
  f = fopen(X.out, "r"); fseek(f, X.pos, SEEK_SET); d = fread(f, Inf, "uint8")'; fclose(f);
  X.pos += numel(d);
  r = x_hex(d);
end
function x_begin(out, in, fdin, fdout, port)
  global X
  X = struct("out", out, "pos", 0, "tcp", port > 0);
  unsetenv("TRAX_IN"); unsetenv("TRAX_OUT"); unsetenv("TRAX_SOCKET");
  if port > 0 setenv("TRAX_SOCKET", sprintf("%d", port));
  else setenv("TRAX_IN", sprintf("%d", fdin)); setenv("TRAX_OUT", sprintf("%d", fdout)); end
end
function s(n, varargin)
  o = cell(1, n); err = "~";
  try
    if n == 0 traxserver(varargin{:}); else [o{:}] = traxserver(varargin{:}); end
    ok = 1;
  catch e
    ok = 0; err = x_hex(e.message);
  end
  x_say('{"op":"s","ok":%d,"err":"%s","out":%s,"d":"%s"}', ok, err, x_list(o), x_drain(false));
end
function x_close()
  global X
  try traxserver("quit"); catch end
  x_say('{"op":"total","d":"%s"}', x_drain(true));
end
% ---- the client: the plan is a cell with one row per call of the callback: images, region, properties, data
function [img, reg, prop, data] = x_callback(state, data)
  global P
  P.n += 1; n = P.n;
  x_say('{"op":"cb","n":%d,"state":%s,"data":%s}', n, x_show(rmfield(state, "time")), x_show(data));
  if !(isscalar(state.time) && isreal(state.time) && state.time >= 0) x_say('{"op":"badtime"}'); end
  if n > rows(P.plan) img = []; reg = []; prop = []; data = "over"; return; end
  if ischar(P.plan{n, 1}) && strncmp(P.plan{n, 1}, "throw", 5) error("callback failed on purpose"); end
  img = P.plan{n, 1}; reg = P.plan{n, 2}; prop = P.plan{n, 3}; data = P.plan{n, 4};
end
function r = x_children()
  [~, t] = system(sprintf("ps -o pid=,args= --ppid %d", getpid()));
  l = strsplit(t, "\n"); r = 0;
  for i = 1:numel(l)
    if !isempty(strtrim(l{i})) && isempty(strfind(l{i}, "ps -o")) && isempty(strfind(l{i}, "defunct")) r += 1; end
  end
end
function x_clear(varargin)
  for i = 1:numel(varargin) [~, ~] = unlink(varargin{i}); end
  x_say('{"op":"clear"}');
end
function u(n, varargin)
  global P
  P = struct("n", 0); P.plan = cell(0, 4);
  o = cell(1, 0); err = "~";
  try
    if nargin == 0 traxclient();
    elseif n == 0 traxclient(varargin{:}); else o = cell(1, n); [o{:}] = traxclient(varargin{:}); end
    ok = 1;
  catch e
    ok = 0; err = x_hex(e.message);
  end
  x_say('{"op":"u","ok":%d,"err":"%s","calls":%d}', ok, err, P.n);
end
function c(n, plan, varargin)
  global P
  P = struct("n", 0); P.plan = plan;
  o = cell(1, n); err = "~";
  t = tic;
  try
    if n == 0 traxclient(varargin{1}, @x_callback, varargin{2:end}); else [o{:}] = traxclient(varargin{1}, @x_callback, varargin{2:end}); end
    ok = 1;
  catch e
    ok = 0; err = x_hex(e.message);
  end
  e = toc(t);
  x_say('{"op":"c","ok":%d,"err":"%s","out":%s,"calls":%d,"left":%d,"time":%.3f}', ok, err, x_list(o), P.n, x_children(), e);
end
