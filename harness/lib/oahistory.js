'use strict';
// Runs the command several times in one process: argv[2] is the CLI, argv[3] a JSON list
// of {dir, args}.  Prints a JSON list of what each run printed.
const cli = process.argv[2];
const runs = JSON.parse(process.argv[3]);
const realLog = process.stdout.write.bind(process.stdout);
const realExit = process.exit;
(async () => {
  const out = [];
  for (const r of runs) {
    process.chdir(r.dir);
    process.argv = [process.execPath, cli, ...r.args];
    delete require.cache[require.resolve(cli)];
    let text = '';
    const result = await new Promise((resolve) => {
      const timer = setTimeout(() => resolve({ stuck: true }), 60000);
      const done = (x) => {
        clearTimeout(timer);
        resolve(x);
      };
      process.exit = (code) => {
        done({ exit: code });
        throw new Error('exit');
      };
      process.stdout.write = (chunk, enc, cb) => {
        text += chunk;
        try {
          JSON.parse(text);
          setImmediate(() => done({ text }));
        } catch {}
        const f = typeof enc === 'function' ? enc : cb;
        if (f) f();
        return true;
      };
      process.once('unhandledRejection', (e) => done({ failed: String((e && e.stack) || e) }));
      require(cli);
    });
    process.stdout.write = realLog;
    process.exit = realExit;
    process.removeAllListeners('unhandledRejection');
    out.push(result);
  }
  realLog(JSON.stringify(out), () => realExit(0));
})();
