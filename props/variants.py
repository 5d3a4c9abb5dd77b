"""Which configurations are also decided with integer inputs (int: integer values and dtype; intdt: integer dtype, values left real)
and with arrays in other memory layouts (fortran: column-major, strided: every other cell of a larger array, reversed: negative strides)."""
import re
V = {
    'c01': {'int': '(determ|ens_last|ens_first|gauss|gamma)-(3|2x3)$', 'fortran': '2x3|2x1|2x2', 'strided': '(determ|ens_.*|gauss)-(3|2x3)$', 'reversed': '(determ|ens_.*)-2x3$'},
    'c02': {'fortran': '2x2-(1|None)'},
    'c03': {'int': r'2x3-\(0,\)', 'fortran': r'2x3x2-\((0,1|-1,0|1,-3)\)|3x2|2x1x2x2-\((-1,-2,0|3,1)\)', 'strided': r'2x3x2-\((0,2)\)'},
    'c04': {'int': 'axis-.*-2$|set_collapse-lin', 'fortran': '-2x3|set_.*2x2'},
    'c05': {'int': '1w', 'fortran': '2x2|1x3', 'strided': '2-3.*cell', 'reversed': '2x2.*cell'},
    'c06': {'intdt': '^(gauss|tgauss|gamma|hurdle)-2-cell'},
    'c07': {'int': 'ens-moments', 'fortran': '2x3|2x2'},
    'c08': {'int': 'range-(2-1|2-2)-', 'fortran': 'range.*2x2'},
    'c09': {'int': '^(2|3)-2-', 'fortran': '2x2'},
    'c10': {'int': 'ens-2-all', 'fortran': '2x2|1x2'},
    'c11': {'fortran': '(direct|ens|hurdle)-2x2'},
    'c12': {'int': '^(det|ens|gauss)-2-', 'fortran': '2x2'},
    'c13': {'fortran': r'direct-2x2-.-1|direct-1x2x2'},
    'c14': {'int': '^(direct|ens)-2-', 'fortran': '2x2'},
    'c15': {'int': 'stat-(error|crps)-2-', 'fortran': 'stat-(error|corr|crps|decomp)-2x2'},
    'c16': {'int': '^(ens|gauss|prob)-2-', 'fortran': '2x2'},
    'c17': {'fortran': 'direct-3x1-skip'},
    'c18': {'intdt': '^gauss-2-'},
    'c19': {'intdt': 'layout-gauss-2-', 'fortran': '(layout|reduce)-gauss-2x2'},
    'c20': {'intdt': 'formula-gauss-2-'},
    'c22': {'int': '(mean|variance)-one-2-given'},
    'c27': {'int': 'inputs-(determ|ens)-(error|sq_error|corr|spread|crps|rank_hist|f_determ)$', 'fortran': '^wide-', 'strided': '^wide-(determ|ens|hurdle|gauss)-'},
    'c28': {'int': '(value|swap)-(MSE2|MAD2)-3-1'},
    'c31': {'fortran': 'order'},
}


def variants(mod, name, tier):
    return [v for v, rx in V.get(mod, {}).items() if tier != 'quick' and v != 'int' and v != 'intdt' or re.search(rx, name)]
