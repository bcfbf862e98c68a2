"""Message types of our own, to see what the package does with types made later (read by the analysis, never run)."""
from nbc.protocol import messages


class Fresh(messages.Message):
    command = 'fresh'
    properties = []


class Quiet(messages.Message):
    command = 'quiet'
    not_regist = True
    properties = []


class FreshPing(messages.Ping):
    command = 'freshping'


class QuietPing(messages.Ping):
    command = 'quietping'
    not_regist = True


class LoudAgain(QuietPing):
    command = 'loudagain'
    not_regist = False


class QuietAck(messages.VersionAck):
    command = 'quietack'
    not_regist = True
