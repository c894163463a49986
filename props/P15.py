from .strs import *
PROOFS = [FIND] + READ + NUM
BOUNDED = [Bounded('options', 'b_opt.c', defines=['VF_P=15'], standin=True, cbmc=False, search_iters=3000000, search_secs=20,
                   bound='random option strings of up to 12000 characters, 20 s')]

META = dict(
    title='Option strings are read exactly, or the default is kept',
    statement='For every option string of any length, reading an option finds the first occurrence of its key, skips its colon and white space and reads the value that starts there; if the key, the colon or the value is missing the reader says so (0) and the variable keeps its default. No option string - however long its values, however malformed (quotes, missing values, missing colons, formatting characters) - makes a reader, the suite or the observer read or write outside its buffers or fail other than by an error message, and the parameters of suite and observer are those given, independent of the order and spacing of the options.',
    over=['inputs', 'configurations'], text='all option strings and keys of all lengths (readers); random and malformed option strings for suites and observers',
    why='Option strings are the only interface to suites, observers and loggers and come from the user; tests read a handful of well-formed short strings.',
    files=['src/coco_utilities.c', 'src/coco_string.c', 'src/coco_observer.c', 'src/coco_suite.c'],
    mechanism=[('finding a key', 'coco_strfind'), ('reading options', 'coco_options_read, coco_options_read_string, coco_options_read_values'), ('buffers for values', 'coco_allocate_option_value'), ('number conversions', 'coco_count_numbers, coco_double_to_int, coco_double_to_size_t'), ('option keys', 'coco_option_keys'), ('observer parameters', 'coco_observer')])
ASSUMPTIONS = ['sscanf is represented by a stub that records the position it reads from and returns -1, 0 or 1; the buffer size of "%s" conversions is covered by the native harness only',
               'isspace/isalpha as in the C locale; strlen as the ghost length of the string it is given',
               'option strings and keys are at most VF_NMAX characters long; a key does not start with white space',
               'coco_option_keys, coco_string_parse_ranges and the observer parameters are covered by the native harness only']
