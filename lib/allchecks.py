from checks import CHECKS
import derives
import calls
import attrs
import spelling
import wrappers
import hygiene
import forms
