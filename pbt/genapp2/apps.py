from django.apps import AppConfig


class Gen2Config(AppConfig):
    name = 'genapp2'
    label = 'gen2'
