"""Program sizes: the real code around the external tools, which are replaced by their definition."""
import os
import subprocess
import tempfile

from vlib import pysym
from vlib.pysym import And

LEVEL = 'other'
TOP = 2**32


def listing(v, sections, total=True, crlf=False, elf='out.elf'):
    """what `size -A` prints; returns (text, {section: bytes})"""
    rows, sizes, addresses = [], {}, []
    for i, s in enumerate(sections):
        x = v.int('size%d' % i, 0, TOP)
        sizes[s] = x
        rows.append('%-22s%s   %s' % (s, v.text(x), v.text(v.int('address%d' % i, 0, TOP)) if i % 2 == 0 else '0'))
    text = '%s  :\nsection           size      addr\n' % elf + '\n'.join(rows) + '\n'
    if total:
        text += 'Total  %s\n\n\n' % v.text(v.int('total', 0, 8 * TOP))
    return (text.replace('\n', '\r\n') if crlf else text), sizes


def parsed(sections, **kw):
    def f(v):
        from emlearn.evaluate import size
        text, sizes = listing(v, sections, **kw)
        out = size.parse_binutils_size_a_output(text)
        for s in ('.text', '.data', '.rodata', '.bss'):
            v.check(out[s] == sizes.get(s, 0), 'bytes of ' + s)
        for s in sizes:
            if s in out:
                v.check(out[s] == sizes[s], 'bytes of ' + s)
        v.reach('parsed')
    return f


def program(platform, mcu, sections, include, wrong=None):
    def f(v):
        from emlearn import common
        from emlearn.evaluate import size
        text, sizes = listing(v, sections)
        calls = []
        CODE = 'int main() { return %d; }\n'

        def check_output(args, **kw):
            if args[0] == 'make':
                if wrong == 'make':
                    raise subprocess.CalledProcessError(2, args, b'error')
                d = kw['cwd']
                settings = dict(a.split('=', 1) for a in args if '=' in a)
                source = os.path.join(d, settings['OBJS'].replace('.o', '.c'))
                calls.append(('make', open(source).read(), settings, args[args.index('-f') + 1]))
                open(os.path.join(d, settings['BIN'] + '.elf'), 'w').write('firmware')
                return b''
            calls.append(('size', list(map(str, args)), os.path.exists(args[-1]) and open(args[-1]).read()))
            if wrong == 'size':
                raise subprocess.CalledProcessError(1, args, b'error')
            return text.encode()
        keep = size.subprocess
        shim = type('subprocess', (), {})()
        shim.check_output = check_output
        shim.CalledProcessError = subprocess.CalledProcessError
        size.subprocess = shim
        keep_print, size.print = size.__dict__.get('print'), lambda *a: None
        try:
            got = size.get_program_size(CODE, platform, mcu=mcu, include_dirs=include)
        except subprocess.CalledProcessError:
            v.check(wrong is not None, 'no failure of a tool')
            v.reach('failed')
            return
        finally:
            size.subprocess = keep
            del size.print
        v.check(wrong is None, 'a failing tool is reported')
        v.check([c[0] for c in calls] == ['make', 'size'], 'one build, one measurement')
        _, source, settings, makefile = calls[0]
        v.check(source == CODE, 'the program is built')
        v.check(os.path.exists(makefile), 'with the makefile of the platform')
        v.check(os.path.basename(os.path.dirname(makefile)) == {'avr': 'avr', 'arm': 'arm-cortex'}[platform], 'with the makefile of the platform')
        want = include or [common.get_include_dir()]
        v.check([x for x in settings['EXTRA_CFLAGS'].split() if x.startswith('-I')] == ['-I' + d for d in want], 'with the include directories')
        if platform == 'avr':
            v.check(settings['MCU'] == mcu, 'for the microcontroller')
        else:
            cpu = {'Cortex-M0': 'cortex-m0', 'Cortex-M0+': 'cortex-m0plus', 'Cortex-M3': 'cortex-m3', 'Cortex-M4F': 'cortex-m4'}[mcu]
            v.check('-mcpu=' + cpu in settings['ARM_CORTEX_CFLAGS'].split(), 'for the microcontroller')
            v.check(('-mfpu=fpv4-sp-d16' in settings['ARM_CORTEX_CFLAGS']) == (mcu == 'Cortex-M4F'), 'floating point unit')
        _, args, firmware = calls[1]
        v.check(args[0] == {'avr': 'avr-size', 'arm': 'arm-none-eabi-size'}[platform], 'the size tool of the platform')
        v.check('-A' in args and firmware == 'firmware', 'the size of the firmware built')
        z = lambda s: sizes.get(s, 0)
        v.check(got['flash'] == z('.text') + z('.data') + z('.rodata'), 'flash: code, constants and initial values')
        v.check(got['ram'] == z('.data') + z('.bss'), 'memory: initialised and zeroed variables')
        v.reach('measured')
    return f


def refused(v):
    from emlearn.evaluate import size
    for platform, mcu in (('esp32', 'x'), ('AVR', 'atmega2560'), ('', ''), ('arm', 'Cortex-M7')):
        try:
            keep = size.subprocess
            size.subprocess = type('subprocess', (), {'check_output': staticmethod(lambda *a, **k: v.check(False, 'nothing is run for an unknown platform')), 'CalledProcessError': subprocess.CalledProcessError})
            size.get_program_size('int main() {}', platform, mcu=mcu)
        except ValueError:
            continue
        finally:
            size.subprocess = keep
        v.check(False, 'an unknown platform is refused')
    v.reach('refused')


ALL = ['.text', '.rodata', '.data', '.bss', '.comment', '.note.gnu.avr.deviceinfo', '.debug_info', '.debug_str', '.ARM.attributes']
LISTS = {
    'avr': ['.data', '.text', '.bss', '.comment', '.note.gnu.avr.deviceinfo', '.debug_aranges', '.debug_info'],
    'arm': ['.text', '.ARM.exidx', '.data', '.bss', '.heap', '.ARM.attributes', '.comment'],
    'plain': ['.text', '.data'],
    'reversed': list(reversed(ALL)),
    'all': ALL,
    'tables': ['.isr_vector', '.text', '.rodata', '.rodata.cst4', '.init_array', '.fini_array', '.data', '.data.rel.ro', '.bss', '._user_heap_stack', '.stack1'],
    'nodata': ['.text'],
    'split': ['.text.hot', '.text', '.text.unlikely', '.rodata', '.rodata.str1.1', '.rodata.cst4', '.data', '.data.rel', '.bss', '.bss.noinit', '.noinit', '.text.startup'],
    'names': ['.mytext', '.bss2', '.data_extra', '.text', 'data', 'bss', '.data', '.xrodata', '.rodata', '.bss'],
}


def run(r, tier):
    from emlearn.evaluate import size
    mods = [size]
    tasks = [pysym.Task('listing-' + n, parsed(s), modules=mods, key='listing') for n, s in LISTS.items()]
    tasks += [pysym.Task('listing-short', parsed(LISTS['all'], total=False), modules=mods, key='listing'), pysym.Task('listing-crlf', parsed(LISTS['arm'], crlf=True), modules=mods, key='listing')]
    for platform, mcu in (('avr', 'atmega2560'), ('avr', 'attiny85'), ('arm', 'Cortex-M0'), ('arm', 'Cortex-M0+'), ('arm', 'Cortex-M3'), ('arm', 'Cortex-M4F')):
        for n in ('all', platform):
            tasks.append(pysym.Task('%s-%s-%s' % (platform, mcu, n), program(platform, mcu, LISTS[n], None if n == 'all' else ['/some/where', '/else']), modules=mods, key=platform))
    for w in ('make', 'size'):
        tasks.append(pysym.Task('failing-' + w, program('arm', 'Cortex-M0', LISTS['all'], None, wrong=w), modules=mods, key='failing'))
    tasks.append(pysym.Task('refused', refused, modules=mods, key='refused'))
    r.bound('listings of 1..11 sections (%d lists), any sizes and addresses below 2^32; both platforms, 6 microcontrollers, default and given include directories' % len(LISTS))
    r.assume('make and the size tool are replaced by stand-ins: the build makes the firmware file, the size tool prints the listing; the compilers themselves are outside')
    pysym.run_tasks(r, tasks)
