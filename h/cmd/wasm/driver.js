// Runs histories of calls against the keyaddr WebAssembly module. One JSON
// request per line on stdin, one JSON answer per line on stdout. Every
// history gets a fresh instance of the module.
'use strict'
const fs = require('fs')
const readline = require('readline')
const out = s => fs.writeSync(1, s + '\n')

require(process.env.WASM_EXEC)
const mod = new WebAssembly.Module(fs.readFileSync(process.env.WASM_FILE))
let logs = 0
let lines = null // what the console shows, with the level of that moment
const note = a => { if (lines) lines.push([String(global.KeyaddrLogLevel), a.map(String).join(' ')]) }
console.log = (...a) => { logs++; note(a) }
for (const f of ['warn', 'error', 'info', 'debug', 'trace']) console[f] = (...a) => note(a)
const turn = () => new Promise(r => setTimeout(r, 0))
const kind = v => v === null ? 'null' : v === undefined ? 'undefined' : v instanceof Error ? 'error' : typeof v
const show = v => {
  if (v instanceof Error) return String(v.message)
  if (v && typeof v === 'object') return JSON.stringify(v)
  return String(v)
}
const arg = a => {
  switch (a.T) {
    case 'str': return a.S || ''
    case 'num': return a.N || 0
    case 'nan': return NaN
    case 'inf': return Infinity
    case 'undef': return undefined
    case 'null': return null
    case 'bool': return true
    case 'obj': return { key: 'x' }
    case 'arr': return ['x']
    case 'sym': return Symbol('x')
    case 'fn': return () => {}
  }
}

async function history (req) {
  delete global.KeyaddrNS
  delete global.KeyaddrLogLevel
  delete global.KeyaddrErrorHandler
  let handled = []
  if (req.Handler) global.KeyaddrErrorHandler = m => { handled.push(kind(m) + ':' + show(m)) }
  if (req.Level) global.KeyaddrLogLevel = req.Level
  const go = new Go()
  let exited = null
  go.exit = c => { exited = 'exit code ' + c }
  const inst = await WebAssembly.instantiate(mod, go.importObject)
  const ran = go.run(inst).then(() => { exited = exited || 'ended' }, e => { exited = 'trap: ' + e })
  const res = { Calls: [], Dead: '', After: '' }
  const pend = []
  let next = 0
  // waits, but only once for long
  let stuck = false
  const wait = async done => {
    for (let i = 0; i < 3; i++) { if (!done()) await turn() }
    for (let t = Date.now(); !stuck && !done(); await turn()) stuck = Date.now() - t > 20000
  }
  // makes the next call
  const call = () => {
    const c = req.Calls[next++]
    const r = { N: 0, Err: '', ErrKind: '', Res: '', ResKind: '', Throw: '', Handled: 0, Logs: 0, Lines: [] }
    res.Calls.push(r)
    if (req.Lines) lines = r.Lines
    if (exited) return null
    if (c.Level) global.KeyaddrLogLevel = c.Level === '-' ? undefined : c.Level
    const args = (c.Args || []).map(arg)
    if (c.Cb) {
      args.push((...a) => {
        r.N++
        if (r.N > 1) return
        r.Argc = a.length
        r.ErrKind = kind(a[0]); r.Err = show(a[0]); r.ResKind = kind(a[1]); r.Res = show(a[1])
        if (req.Chain && next < req.Calls.length) pend.push(call())
      })
    }
    for (const a of c.Tail || []) args.push(arg(a))
    const h0 = handled.length
    const l0 = logs
    try {
      global.KeyaddrNS[c.Fn](...args)
    } catch (e) { r.Throw = String(e) }
    const isCb = c.Cb && !(c.Tail && c.Tail.length) // our callback is the last argument
    const stray = !isCb && typeof args[args.length - 1] === 'function' // another function is
    return {
      done: () => exited || r.Throw || stray || (isCb ? r.N > 0 : !req.Handler || handled.length > h0),
      end: () => { r.Handled = handled.length - h0; r.Logs = logs - l0 }
    }
  }
  while (next < req.Calls.length) {
    const p = call()
    if (!p) continue
    if (req.Together) { pend.push(p); continue }
    await wait(p.done)
    if (req.Lines) { await turn(); await turn() }
    p.end()
  }
  lines = null
  for (const p of pend) {
    if (p) await wait(p.done)
  }
  for (let i = 0; i < 2; i++) await turn() // anything late
  res.Handled = handled.length
  if (!exited) {
    let got = null
    try {
      global.KeyaddrNS.wordsFromPrefix('en', 'zoo', 1, (e, w) => { got = show(e) + '/' + show(w) })
      await wait(() => got !== null || exited)
    } catch (e) { got = 'threw ' + e }
    res.After = String(got)
  }
  res.Dead = exited || ''
  if (!exited) {
    let bye = 0
    global.KeyaddrNS.exit(() => { bye++ })
    await wait(() => exited)
    res.Bye = bye
    res.Exit = exited || 'still running'
    if (exited) await ran
  }
  return res
}

// plays the life of an application and the modules it loads
async function life (req) {
  for (const n of ['KeyaddrNS', 'KeyaddrLogLevel', 'KeyaddrErrorHandler']) delete global[n]
  const seen = { one: 0, two: 0, throws: 0, text: '' }
  const handlers = {
    undef: undefined,
    null: null,
    zero: 0,
    one: (...m) => { seen.one++; seen.text = m.length + kind(m[0]) + show(m[0]) },
    two: (...m) => { seen.two++; seen.text = m.length + kind(m[0]) + show(m[0]) },
    throws: () => { seen.throws++; throw new Error('the handler throws') }
  }
  const levels = { undef: undefined, null: null, empty: '' }
  const insts = []
  const steps = []
  const hname = () => Object.keys(handlers).find(n => handlers[n] === global.KeyaddrErrorHandler) || 'other ' + typeof global.KeyaddrErrorHandler
  const wait = async (done, long) => {
    for (let i = 0; i < 3; i++) { if (!done()) await turn() }
    for (let t = Date.now(); !done() && Date.now() - t < long; await turn()) ;
  }
  for (const op of req.Ops) {
    const r = { N: 0, Err: '', ErrKind: '', Res: '', ResKind: '', Throw: '', Fns: [], Lines: 0, Handler: hname() }
    steps.push(r)
    const l0 = logs
    const s0 = Object.assign({}, seen)
    seen.text = ''
    if (op.Op === 'level') global.KeyaddrLogLevel = op.V in levels ? levels[op.V] : op.V
    if (op.Op === 'handler') global.KeyaddrErrorHandler = handlers[op.V]
    if (op.Op === 'load') {
      const x = { exited: '' }
      const go = new Go()
      go.exit = c => { x.exited = 'exit code ' + c }
      const inst = await WebAssembly.instantiate(mod, go.importObject)
      x.ran = go.run(inst).then(() => { x.exited = x.exited || 'ended' }, e => { x.exited = 'trap: ' + e })
      x.ns = global.KeyaddrNS
      insts.push(x)
      await turn()
      for (const f of Object.keys(x.ns || {}).sort()) r.Fns.push(f + ' ' + typeof x.ns[f])
      r.Consts = ['Debug', 'Info', 'Error'].map(n => kind(global['KeyaddrLogLevel' + n]) + show(global['KeyaddrLogLevel' + n])).join(' ')
    }
    if (op.Op === 'call' || op.Op === 'exit') {
      const x = insts[op.Inst || 0]
      const fn = op.Op === 'exit' ? 'exit' : op.Call.Fn
      const args = ((op.Op === 'exit' ? op.Args : op.Call.Args) || []).map(arg)
      const cb = op.Op === 'exit' ? op.Cb : op.Call.Cb
      if (cb) {
        args.push((...a) => {
          r.N++
          if (r.N === 1) {
            r.ErrKind = kind(a[0]); r.Err = show(a[0]); r.ResKind = kind(a[1]); r.Res = show(a[1])
          }
          if (op.Throw) throw op.Throw === 'error' ? new Error('the callback throws') : op.Throw === 'null' ? null : 'thrown text'
        })
      }
      try { x.ns[fn](...args) } catch (e) { r.Throw = String(e) }
      const told = () => seen.one + seen.two + seen.throws > s0.one + s0.two + s0.throws
      const heard = () => typeof handlers[r.Handler] === 'function' ? told() : logs > l0
      if (op.Op === 'exit' && cb && !args[1]) await wait(() => x.exited, 5000)
      else await wait(() => x.exited || (cb ? r.N > 0 && (!op.Throw || heard()) : heard()), 5000)
      await turn()
      if (x.exited) await x.ran
    }
    r.Lines = logs - l0
    r.One = seen.one - s0.one
    r.Two = seen.two - s0.two
    r.Throws = seen.throws - s0.throws
    r.Text = seen.text
    r.Handler = hname()
    r.Level = kind(global.KeyaddrLogLevel) + ' ' + show(global.KeyaddrLogLevel)
    r.Ended = insts.map(x => x.exited)
  }
  for (const x of insts) {
    if (!x.exited) {
      try { x.ns.exit(() => {}) } catch (e) {}
      await wait(() => x.exited, 5000)
    }
  }
  return { Steps: steps }
}

const rl = readline.createInterface({ input: process.stdin, terminal: false })
let chain = Promise.resolve()
rl.on('line', l => {
  chain = chain.then(() => { const q = JSON.parse(l); return q.Ops ? life(q) : history(q) }).then(r => out(JSON.stringify(r)), e => out(JSON.stringify({ Broken: String(e && e.stack || e) })))
})
rl.on('close', () => { chain.then(() => process.exit(0)) })
process.on('uncaughtException', e => { out(JSON.stringify({ Broken: 'uncaught ' + (e && e.stack || e) })) })
process.on('unhandledRejection', e => { out(JSON.stringify({ Broken: 'rejected ' + (e && e.stack || e) })) })
