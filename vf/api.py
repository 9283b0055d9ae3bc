from .runner import Prop
