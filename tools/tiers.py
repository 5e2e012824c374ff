"""What each check runs: build variant, number of runs (seeds), time cap in seconds."""

RATE = {  # runs per second measured on 8 cores, used only to size the tiers
    'C02': 3500, 'C03': 3500, 'C04': 1090, 'C05': 1360, 'C06': 1640, 'C07': 1530, 'C08': 1360, 'C09': 1550, 'C10': 900, 'C11': 1020,
    'C12': 1260, 'C13': 1310, 'C14': 135, 'C15': 105, 'C16': 170, 'C17': 138, 'C18': 1350, 'C19': 284, 'C20': 1700, 'C21': 12, 'C22': 18,
    'C23': 135, 'C24': 1080, 'C25': 295, 'C26': 2400, 'C27': 1450, 'C28': 1130, 'C01': 134, 'C90': 800, 'C91': 900, 'C29': 60, 'C30': 150, 'C94': 1000,
}

MODEL = ('One run: a seeded transmitter schedules groups of several services of one or more stations, a seeded channel loses, duplicates, reorders, '
         'corrupts and glitches blocks and groups, the result is written as hex, TEF6686 or raw bits, and a seeded schedule cuts it into reads '
         '(short reads, stalls, EINTR) with option flags, clock and time zone also drawn; the real main() decodes it and its lines are compared with an '
         'executable reference model of the receiver. ')
IO = ('One run: a seeded session (MPX samples, bits, hex or TEF6686 lines) is fed to the real main() under a seeded schedule of reads, writes, faults, clock '
      'movements, end of input or kill; the recorded history of reads and writes is checked and compared with a second run or the reference model. ')
NT_LINE = 'Non-trivial: the run printed at least one field this property is about; distinct by hash of everything printed.'

SHAPE = 'distinct (fields printed, blocks received, fields of the previous line) triples'

A_MODEL = ['the reference model (sim/ref_front.cc, sim/ref_back.cc) states the RDS standard as redsea documents it', 'one process, single thread: the schedule is the sequence of reads, writes, clock readings and faults',
           'seeded search, not enumeration: absence of a violation is evidence, not proof']
A_IO = ['one process, single thread: the schedule is the sequence of reads, writes, clock readings and faults', 'seeded search, not enumeration: absence of a violation is evidence, not proof']
A_MPX = A_IO + ['MPX signals are synthesised (sim/mpx.cc): RDS by biphase BPSK with cosine shaping, pilot, programme noise, white noise', 'the libraries liquid-dsp and libsndfile are the installed ones']

RULE = {
    'C01': IO + 'Inputs are transmissions and garbage in every format, sound files with damaged headers, all options, damaged table files, read/write errors and arbitrary initial heap and stack contents. Non-trivial: something was printed.',
    'C02': 'One run: a bit stream of valid groups is synchronised, then blocks are hit by seeded error patterns (single bits, pairs, bursts, up to whole blocks, check word and data part, wrong offset words), with and without FEC; the delivered blocks are compared with an independent decoder by minimum distance. Non-trivial: at least one block was corrected or rejected.',
    'C03': 'One run: a bit stream of garbage, bit slips, insertions, false offset words, error bursts and station changes; groups and their timing are compared with an independent synchroniser model and the relock bound. Non-trivial: sync was reached.',
    'C04': MODEL + 'Or a pair of runs: isolated wrong PIs against the right ones, and a retuned receiver against one tuned directly to the new station. ' + NT_LINE,
    'C11': MODEL + 'Or a pair of runs with and without the data-stream groups. ' + NT_LINE,
    'C13': MODEL + 'Or a pair of runs whose unreceived blocks have different contents. ' + NT_LINE,
    'C14': IO + 'Two schedules (read sizes, EINTR, pipe or file, pace), clocks, environments and initial memory contents for the same bytes must print the same. Non-trivial: something was printed.',
    'C15': IO + 'At every request for more input, all lines due by then must have been written. Non-trivial: at least one line was due before the end.',
    'C16': IO + 'The input is cut at a random byte, fails with EIO there, or the process is killed at a read or in the middle of a write. Non-trivial: at least one group was complete by then.',
    'C17': IO + 'The simulated clock runs at the pace of the transmission, faster, stalls and is set back. Non-trivial: at least one timestamp was checked.',
    'C19': IO + 'The recorded hex is fed back in a second and third run. Non-trivial: a line was recorded.',
    'C21': IO + 'Each channel of 2-4 channel MPX is also decoded alone; other channels carry other stations, silence or noise. Non-trivial: a channel printed a line.',
    'C22': 'One run: a synthesised MPX signal (rate 128-400 kHz, level, phase, frequency and clock offset, noise, 1-4 subcarriers) with a random sequence of disturbances (dropout, digital silence, noise, level step, other station, garbage); every group after lock-in must be decoded, and again within the bound after each disturbance. Non-trivial: a lock-in was judged.',
    'C23': IO + 'The same input with and without -e, and stdout against the input. Non-trivial: the input is not empty.',
    'C24': MODEL + 'Location tables and key files are generated with damaged, missing, reordered, wrongly encoded rows and read with short reads, EINTR and EIO. ' + NT_LINE,
    'C25': IO + 'Two runs whose options differ; lines must match after removing what the options stand for. Non-trivial: lines were compared.',
    'C90': MODEL + 'The receiver is retuned between 2 and 40 stations whose PI codes cover every range of NRSC-4 and its edges. ' + NT_LINE,
    'C91': IO + 'The command line is drawn with mistakes (values out of range, combinations that make no sense, unknown options, stray words) and in two orders and spellings. Non-trivial: a command line was judged.',
    'C94': 'One run: the bit stream of a transmission with frequent loss of synchronisation is decoded with the bit counter starting at 0 and starting so that it overflows within it, and the outputs compared; or the sample counter overflows within a synthesised MPX signal, and every group must be decoded again within the bound. Non-trivial: something was printed.',
    'C29': IO + 'The samples are also put into a sound file (17 containers and encodings), read by name, from a seekable stdin or a pipe, with short and interrupted reads; files with unusable rates or damaged headers must be refused. Non-trivial: something was printed or refused.',
    'C30': IO + 'The same transmission, with its faults, is repeated 32 times, and the memory in use when more input is requested must not grow from the second to the last quarter. Non-trivial: the memory was judged.',
    'C26': MODEL + 'Lines are cut, altered, run together and interleaved with garbage; or the same input with the garbage lines removed. ' + NT_LINE,
}
MEASURE = {
    'C01': 'distinct (kind of input, fields printed) pairs', 'C02': 'distinct (locks, losses, corrected, rejected) tuples', 'C03': 'distinct (locks, losses, corrected, rejected) tuples',
    'C14': 'distinct (kind of input, both schedules, output size class)', 'C15': 'distinct (input offset, lines due) pairs at a request for input',
    'C16': 'distinct (kind of end, position in the group or chunk)', 'C17': 'distinct (kind, schedule, centisecond, pace)', 'C19': SHAPE, 'C21': 'distinct lines compared',
    'C22': 'distinct (disturbance, groups lost before relock, sample rate, stream)', 'C23': 'distinct (kind, input length modulo 4096)', 'C25': SHAPE,
    'C91': 'distinct (verdict, sequence of options, values if rejected)',
    'C94': 'distinct (position of the overflow in the group, lines printed modulo 16)',
    'C29': 'distinct (format, way of reading, channels, rate)', 'C30': 'distinct (allocations, bytes in use)',
    'C90': 'distinct PI codes whose call sign was judged',
}

TIERS = {}
for _p, _r in RATE.items():
    q, t = 30, 600
    TIERS[_p] = {
        'variants': {'quick': [('plain', max(200, int(_r * q)), 120)], 'thorough': [('plain', int(_r * t * 2), t)]},
        'rule': RULE.get(_p, MODEL + NT_LINE),
        'measure': MEASURE.get(_p, SHAPE),
        'assumptions': A_MPX if _p in ('C21', 'C22', 'C94') else A_IO if _p in ('C01', 'C02', 'C03', 'C14', 'C15', 'C16', 'C17', 'C19', 'C23', 'C25', 'C91', 'C29', 'C30') else A_MODEL,
    }
TIERS['C01']['variants'] = {'quick': [('asan', 4000, 90), ('plain', 16000, 90)], 'thorough': [('asan', 200000, 420), ('plain', 400000, 300)]}
TIERS['C22']['variants']['quick'] = [('plain', 600, 150)]
TIERS['C21']['variants']['quick'] = [('plain', 480, 150)]
