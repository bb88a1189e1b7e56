"""The session (C09-C12, C22)."""
SPEC = {}
HARNESSES = dict(harness_request=['C09', 'C11', 'C12'], harness_interleaved=['C09'], harness_event=['C12', 'C22'], harness_other=['C12'],
                 harness_response=['C10', 'C11'], harness_response_again=['C10'],
                 harness_send=['C11'], harness_thread0=['C22'], harness_thread1=['C22'], harness_destroy=['C22'], harness_twice=['C22'],
                 harness_adaptor_request=['C09'], harness_adaptor_event_sent=['C09', 'C22'], harness_adaptor_send=['C10', 'C11'], harness_outcome=['C10'], harness_bind=['C22'])
OPTS = dict(nomerge=True)
