"""Child of check C34: reads {repo, here, prelude, docs} as JSON on stdin, prints the outputs' digests.

Run under the interpreter configuration being explored; imports nothing of the code under
test before the prelude has run.
"""
import sys

sys.dont_write_bytecode = True


def work(job, put):
    import digest
    put([digest.of(d) for d in job['docs']])


def main():
    import json
    job = json.loads(sys.stdin.read())
    # the code under test first, like an installed package
    sys.path.insert(0, job['here'])
    sys.path.insert(0, job['repo'])
    space = {'job': job, 'run': work}
    out = []
    space['put'] = out.extend
    exec(job['prelude'], space)
    space['run'](job, out.extend)
    import commonmark
    sys.stdout.write(json.dumps({'where': commonmark.__file__, 'digests': out}))


main()
