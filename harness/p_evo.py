from p_pop import *  # noqa
