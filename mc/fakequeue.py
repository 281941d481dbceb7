"""A stand-in batch system: qsub/qstat/qdel shell scripts working on a state directory (no real queue is touched)."""
import os
import stat

QSUB = r'''#!/bin/sh
# arguments: ... scriptname ; state in $FAKEQ
for a in "$@"; do script="$a"; done
echo "qsub $@" >> "$FAKEQ/log"
if [ -f "$FAKEQ/qsub_empty" ]; then exit 0; fi
read n < "$FAKEQ/next"
n=$((n+1))
echo $n > "$FAKEQ/next"
read fmt < "$FAKEQ/fmt"
case "$fmt" in
 plain) id=$n; out=$n;;
 pbs) id=$n.host; out=$n.host;;
 moab) id=Moab.$n; out=Moab.$n;;
 shortpbs|shortmoab|showq) id=$n; out=$n;;
 ogs) id=$n; out="Your job $n (\"name\") has been submitted";;
esac
echo "$id qw $script" >> "$FAKEQ/queue"
echo "$out"
'''
QSTAT = r'''#!/bin/sh
if [ "$1" = "-help" ]; then
  read fmt < "$FAKEQ/fmt"
  if [ "$fmt" = ogs ]; then echo "OGS/GE 2011"; else echo usage; fi
  exit 0
fi
read fmt < "$FAKEQ/fmt"
echo "job-ID  prior   name       user         state submit/start at     queue"
echo "-----------------------------------------------------------------------"
while read id st script; do
  name=${script##*/}
  case "$fmt" in
   shortpbs) id=$id.host;;
   shortmoab) id=Moab.$id;;
  esac
  echo " $id 0.55 ${name%_subscript} $USER $st 01/01/2020 10:00:00 q@node"
done < "$FAKEQ/queue"
echo " 7 0.55 foreign $USER r 01/01/2020 10:00:00 q@node"
echo " 8 0.55 other someoneelse qw 01/01/2020 10:00:00 q@node"
'''
SHOWQ = r'''#!/bin/sh
echo "SUMMARY OF JOBS FOR USER: <$USER>"
echo "JOBID     JOBNAME    USERNAME      STATE   CORE  HOST  QUEUE        REMAINING  STARTTIME"
while read id st script; do
  name=${script##*/}
  state=Idle
  if [ "$st" = r ]; then state=Running; fi
  echo "$id ${name%_subscript} $USER $state 16 1 q 23:00:00 Mon"
done < "$FAKEQ/queue"
echo "7 foreign $USER Running 16 1 q 23:00:00 Mon"
echo "8 other someoneelse Idle 16 1 q 23:00:00 Mon"
echo "Total Jobs: 3 of $USER Active"
'''
QDEL = r'''#!/bin/sh
echo "qdel $1" >> "$FAKEQ/log"
while read id rest; do
  if [ "$id" != "$1" ]; then echo "$id $rest"; fi
done < "$FAKEQ/queue" > "$FAKEQ/queue2"
while read l; do echo "$l"; done < "$FAKEQ/queue2" > "$FAKEQ/queue"
'''


class FakeQueue(object):
    def __init__(self, bindir, statedir, fmt):
        if fmt == 'showq':
            bindir += '_showq'
        if not os.path.exists(bindir):
            os.makedirs(bindir)
            for name, text in (('qsub', QSUB), ('qstat', QSTAT), ('qdel', QDEL)) + ((('showq', SHOWQ),) if fmt == 'showq' else ()):
                p = os.path.join(bindir, name)
                with open(p, 'w') as f:
                    f.write(text)
                os.chmod(p, 0o755)
        os.makedirs(statedir)
        self.dir = statedir
        self.write('fmt', fmt + '\n')
        self.write('next', '100\n')
        self.write('queue', '')
        self.write('log', '')
        os.environ['FAKEQ'] = statedir
        os.environ['USER'] = 'mcuser'
        os.environ['PATH'] = bindir + ':/usr/bin:/bin'

    def write(self, name, text):
        with open(os.path.join(self.dir, name), 'w') as f:
            f.write(text)

    def read(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return f.read()

    def jobs(self):
        return [line.split() for line in self.read('queue').splitlines()]

    def set_jobs(self, jobs):
        self.write('queue', ''.join(' '.join(j) + '\n' for j in jobs))

    def take_log(self):
        t = self.read('log').splitlines()
        self.write('log', '')
        return t

    def reject(self, on):
        p = os.path.join(self.dir, 'qsub_empty')
        if on:
            self.write('qsub_empty', '')
        elif os.path.exists(p):
            os.remove(p)
